----------------------------- MODULE Validation -----------------------------
(***************************************************************************)
(* Which descriptions of components are accepted (C25).                    *)
(*                                                                         *)
(* A draft is one component (or constraint) with its parameters, in the    *)
(* smallest system that contains it.  `Create` turns the draft into a      *)
(* component, `Build` into a model; both refuse contradictory drafts.      *)
(* `Faults` names every reason, so that a draft is accepted iff the set    *)
(* is empty.  Which of the two steps refuses is left open ("when they are  *)
(* created or at the latest when the model is built").                     *)
(*                                                                         *)
(* Numbers are integers (percent for shares); Inf stands for infinity.     *)
(* A parameter is Par(shape, values): "none", "scalar" or "series".        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Steps,      \* steps of a single-period model
          Kinds,      \* which kinds of drafts to enumerate
          MaxGiven    \* how many parameters may be given

VARIABLES pc,         \* "draft" | "refused" | "model"
          draft,      \* the parameters chosen so far
          given,      \* how many were changed
          last        \* position of the last one
vars == <<pc, draft, given, last>>

Inf == 1000000
None == [sh |-> "none", v |-> <<>>]
Sc(x) == [sh |-> "scalar", v |-> <<x>>]
Se(x) == [sh |-> "series", v |-> x]
Given(p) == p.sh # "none"
Vals(p) == {p.v[i] : i \in 1..Len(p.v)}
Short(p, n) == p.sh = "series" /\ Len(p.v) < n
First(p) == p.v[1]
Fault(c, name) == IF c THEN {name} ELSE {}

MPeriods == 2
MSteps == 4
N(d) == IF d.multi THEN MSteps ELSE Steps      \* number of steps
NP(d) == IF d.multi THEN MPeriods ELSE 1

-----------------------------------------------------------------------------
(* Investment data, wherever it is used *)
InvestFaults(i, multi, np) ==
  Fault(i.kind = "text", "investment.nonconvexNotBoolean")
  \cup Fault(i.kind = "nonconvex" /\ i.ex # 0, "investment.existingNonconvex")
  \cup Fault(i.kind = "nonconvex" /\ (~Given(i.max) \/ Inf \in Vals(i.max)), "investment.nonconvexUnlimited")
  \cup Fault(i.kind = "convex" /\ Given(i.off) /\ Vals(i.off) # {0}, "investment.offsetConvex")
  \cup Fault(i.life > 0 /\ i.age >= i.life, "investment.age")
  \cup Fault(multi /\ i.life = 0, "investment.lifetimeMissing")
  \cup Fault(multi /\ (Short(i.max, np) \/ Short(i.off, np) \/ Short(i.ep, np)), "investment.short")

InvestDomain == [what |-> {"invest"}, multi |-> BOOLEAN, use |-> {"flow", "nonconvexFlow", "storage"},
                 kind |-> {"convex", "nonconvex", "text"}, ex |-> {0, 1, 10}, \* halves
                 max |-> {None, Sc(10), Se(<<10, 10>>), Se(<<10, Inf>>), Se(<<Inf, 10>>), Se(<<10>>)},
                 off |-> {None, Sc(0), Sc(3), Se(<<0, 3>>), Se(<<3, 0>>), Se(<<3>>)},
                 ep |-> {Sc(1), Se(<<1, 2>>), Se(<<1>>)},
                 life |-> {0, 20}, age |-> {0, 5, 20, 25}]
\* data that only several periods can use is left out otherwise, and an age
\* without a lifetime has no meaning
InvestDraft(d) == /\ (d.life = 0 => d.age = 0)
                  /\ (~d.multi => d.life = 0 \/ d.age > 0)
                  /\ (~d.multi => d.max.sh # "series" /\ d.off.sh # "series" /\ d.ep.sh # "series")
InvestUseFaults(d) ==
  InvestFaults(d, d.multi, NP(d))
  \cup Fault(d.use = "nonconvexFlow" /\ (~Given(d.max) \/ Inf \in Vals(d.max)), "flow.nonconvexInvestmentUnlimited")

-----------------------------------------------------------------------------
(* Flows *)
FlowDomain == [what |-> {"flow"}, multi |-> {FALSE},
               cap |-> {"none", "num", "inf", "text", "invest", "investLimited"}, old |-> BOOLEAN,
               min |-> {None, Sc(0), Sc(50), Se(<<0, 50, 0>>), Se(<<50, 0, 0>>), Sc(-100), Se(<<0, -50, 0>>), Se(<<50, 50>>)},
               oldmin |-> BOOLEAN,
               max |-> {None, Sc(100), Sc(50), Se(<<100, 50, 100>>), Sc(Inf), Se(<<100, Inf, 100>>), Se(<<50, 50>>)},
               oldmax |-> BOOLEAN,
               fix |-> {None, Sc(50), Se(<<0, 50, 100>>), Se(<<50, 50>>)},
               nc |-> {"none", "plain", "gradient"},
               gp |-> {None, Sc(30), Se(<<30, 30>>)}, gn |-> {None, Sc(30)},
               flmax |-> BOOLEAN, flmin |-> BOOLEAN,
               vc |-> {Sc(0), Se(<<1, 2, 3>>), Se(<<1, 2>>)}]
\* combinations that no property speaks about are left out
FlowDraft(d) ==
  /\ (d.old => d.cap # "none")
  /\ (d.oldmin => Given(d.min)) /\ (d.oldmax => Given(d.max))
  \* zeros and ones given explicitly next to a fixed profile
  /\ (Given(d.fix) => d.min # Sc(0) /\ d.max # Sc(100))
  \* an unlimited maximum of an investment
  /\ (d.cap \in {"invest", "investLimited"} => Inf \notin Vals(d.max))
  \* fixed profiles and negative values with on/off operation
  /\ (d.nc # "none" => ~Given(d.fix) /\ (\A x \in Vals(d.min) : x >= 0))
  \* gradient limits of an investment
  /\ (d.cap \in {"invest", "investLimited"} => ~Given(d.gp) /\ ~Given(d.gn) /\ d.nc # "gradient")
  /\ (d.cap = "none" => d.nc = "none")
FlowFaults(d) ==
  Fault(d.old, "flow.capacityTwice")
  \cup Fault(d.oldmin, "flow.minimumTwice") \cup Fault(d.oldmax, "flow.maximumTwice")
  \cup Fault(d.cap \in {"inf", "text"}, "flow.capacityInvalid")
  \cup Fault(Given(d.fix) /\ (Given(d.min) \/ Given(d.max)), "flow.fixAndBounds")
  \cup Fault(d.cap = "none" /\
         (\/ Given(d.fix) \/ d.flmax \/ d.flmin
          \/ Given(d.min) /\ Vals(d.min) # {0} /\ d.min # Sc(-100)
          \/ Given(d.max) /\ Vals(d.max) # {100}), "flow.limitWithoutCapacity")
  \cup Fault(d.cap = "none" /\ (Given(d.gp) \/ Given(d.gn)), "flow.gradientWithoutCapacity")
  \cup Fault(d.cap = "num" /\ Inf \in Vals(d.max), "flow.maximumInfinite")
  \cup Fault(d.nc = "gradient" /\ (Given(d.gp) \/ Given(d.gn)), "flow.gradientTwice")
  \cup Fault(d.cap = "invest" /\ d.nc # "none", "flow.nonconvexInvestmentUnlimited")
  \cup Fault(\E p \in {d.min, d.max, d.fix, d.gp, d.gn, d.vc} : Short(p, Steps), "flow.short")

-----------------------------------------------------------------------------
(* On/off operation *)
Par3 == {None, Sc(1), Se(<<1, 2, 1>>), Se(<<1, 2>>)}
NonConvexDomain == [what |-> {"nonconvex"}, multi |-> {FALSE}, invest |-> BOOLEAN, init |-> {0, 1},
                    up |-> {None, Sc(2), Se(<<2, 1, 2>>)}, dn |-> {None, Sc(2), Se(<<2, 1, 1>>)},
                    cs |-> Par3, cd |-> Par3, ca |-> Par3, ci |-> Par3]
\* (a minimum time at the very last step has no meaning, so nothing is said
\* about series of minimum times that end before)
NonConvexFaults(d) ==
  Fault(\E p \in {d.cs, d.cd, d.ca, d.ci} : Short(p, Steps), "nonconvex.short")

-----------------------------------------------------------------------------
(* Storages *)
StorageDomain == [what |-> {"storage"}, multi |-> BOOLEAN, nin |-> 0..2, nout |-> 0..2,
                  cap |-> {"none", "num", "text", "invest"}, old |-> BOOLEAN,
                  ex |-> {0, 1}, imin |-> {0, 1}, life |-> {0, 20}, \* halves
                  init |-> {None, Sc(0), Sc(50), Sc(120), Sc(-10), Sc(20), Sc(80)},
                  lmin |-> {None, Sc(30), Se(<<30, 0, 0, 0>>), Se(<<0, 30, 30, 30>>)}, lmax |-> {None, Sc(70), Se(<<70, 100, 100, 100>>)},
                  fla |-> {None, Sc(2), Se(<<0, 2, 2, 2>>)},
                  rel |-> SUBSET {"io", "ic", "oc"}, inInv |-> BOOLEAN, outInv |-> BOOLEAN,
                  soc |-> {"none", "both", "untilOnly"}, short |-> {"none", "lmin", "loss", "eff", "sc", "flr"}]
StorageDraft(d) ==
  /\ (d.old => d.cap # "none")
  /\ (d.cap # "invest" => d.ex = 0 /\ d.imin = 0 /\ d.life = 0)
  /\ (~d.multi => d.life = 0)
  /\ (d.nin # 1 => ~d.inInv) /\ (d.nout # 1 => ~d.outInv)
  /\ (d.rel = {} => ~d.inInv /\ ~d.outInv)
  /\ (d.short = "lmin" => ~Given(d.lmin))
  \* several periods: investments only (the rest is the same code)
  /\ (d.multi => d.cap = "invest" /\ d.soc = "none")
  /\ (d.soc # "none" => d.rel = {})
StorageFaults(d) ==
  Fault(d.old, "storage.capacityTwice")
  \cup Fault(d.nin # 1 \/ d.nout # 1, "storage.numberOfFlows")
  \cup Fault(d.cap \in {"none", "text"}, "storage.capacityInvalid")
  \cup Fault("io" \in d.rel /\ ~(d.inInv /\ d.outInv), "storage.relationWithoutInvestment")
  \cup Fault("ic" \in d.rel /\ ~(d.inInv /\ d.cap = "invest"), "storage.relationWithoutInvestment")
  \cup Fault("oc" \in d.rel /\ ~(d.outInv /\ d.cap = "invest"), "storage.relationWithoutInvestment")
  \cup Fault(d.rel = {"io", "ic", "oc"}, "storage.overdetermined")
  \cup Fault(Given(d.init) /\ (First(d.init) < 0 \/ First(d.init) > 100
              \/ (Given(d.lmin) /\ First(d.init) < First(d.lmin))
              \/ (Given(d.lmax) /\ First(d.init) > First(d.lmax))), "storage.initialLevel")
  \cup Fault(d.cap = "invest" /\ Given(d.fla) /\ d.ex = 0 /\ d.imin = 0, "storage.lossesWithoutCapacity")
  \cup Fault(d.multi /\ Given(d.fla), "storage.absoluteLossesPeriods")
  \cup Fault(d.multi /\ Given(d.init), "storage.initialLevelPeriods")
  \cup Fault(d.multi /\ d.life = 0, "investment.lifetimeMissing")
  \cup Fault(d.soc # "none" /\ d.cap = "invest", "storage.socInvestment")
  \cup Fault(d.soc = "untilOnly", "storage.socIncomplete")
  \cup Fault(d.short # "none", "storage.short")

-----------------------------------------------------------------------------
(* Converters with on/off operation, other converters, links *)
OffsetDomain == [what |-> {"offset"}, multi |-> {FALSE}, ncIn |-> BOOLEAN, ncOut |-> BOOLEAN,
                 invIn |-> BOOLEAN, invOut |-> BOOLEAN, cfIn |-> BOOLEAN, cfOut |-> BOOLEAN, offIn |-> BOOLEAN, offOut |-> BOOLEAN,
                 coef |-> BOOLEAN, short |-> {"none", "cf", "off"}]
\* the old coefficients are meant for on/off operation of the output
OffsetDraft(d) == /\ (d.coef => d.ncOut /\ ~d.ncIn /\ ~d.invOut /\ ~d.invIn)
                  /\ (d.short = "cf" => d.cfIn \/ d.cfOut) /\ (d.short = "off" => d.offIn \/ d.offOut)
OffsetFaults(d) ==
  Fault(d.ncIn = d.ncOut, "offset.reference")
  \cup Fault(d.ncIn # d.ncOut /\ ((d.invIn /\ ~d.ncIn) \/ (d.invOut /\ ~d.ncOut)), "offset.investment")
  \cup Fault(d.ncIn # d.ncOut /\ ((d.cfIn /\ d.ncIn) \/ (d.cfOut /\ d.ncOut)), "offset.referenceFactor")
  \cup Fault(d.ncIn # d.ncOut /\ ((d.offIn /\ d.ncIn) \/ (d.offOut /\ d.ncOut)), "offset.referenceOffset")
  \cup Fault(d.coef /\ (d.cfIn \/ d.cfOut \/ d.offIn \/ d.offOut), "offset.coefficientsTwice")
  \cup Fault(d.short # "none", "offset.short")

ConverterDomain == [what |-> {"converter"}, multi |-> BOOLEAN, kind |-> {"converter", "link", "extraction"},
                    cf |-> {"none", "scalar", "series", "short"}, other |-> {"scalar", "series", "short"}, unknown |-> BOOLEAN]
ConverterDraft(d) == (d.unknown => d.kind = "link") /\ (d.kind # "converter" => d.cf # "none")
ConverterFaults(d) ==
  Fault(d.cf = "short" \/ d.other = "short", "converter.short")
  \cup Fault(d.unknown, "link.unknownConnection")

PiecewiseDomain == [what |-> {"piecewise"}, multi |-> {FALSE}, nin |-> 1..2, nout |-> 1..2, cap |-> {0, 3, 4, 5}]
\* capacity 0: none given; the largest breakpoint is 4
PiecewiseFaults(d) ==
  Fault(d.nin > 1 \/ d.nout > 1, "piecewise.numberOfFlows")
  \cup Fault(d.cap = 0, "piecewise.capacityMissing")
  \cup Fault(d.cap > 4, "piecewise.domain")

ChpDomain == [what |-> {"chp"}, multi |-> {FALSE}, missing |-> {"none", "pmin", "smax", "qcw"},
              long |-> SUBSET {"pmin", "pmax", "emin", "emax"}, short |-> SUBSET {"power", "smax", "qcw", "beta"}]
\* long: more values than the others
ChpFaults(d) ==
  Fault(d.missing # "none", "chp.parameterMissing")
  \cup Fault(d.long # {} /\ d.long # {"pmin", "pmax", "emin", "emax"}, "chp.dimension")
  \cup Fault(d.short # {}, "chp.short")

-----------------------------------------------------------------------------
(* Constraints added to a model, and what is named twice *)
LimitDomain == [what |-> {"limit"}, multi |-> BOOLEAN, kind |-> {"integral", "periodical", "investPerPeriod"},
                lo |-> {None, Sc(1)}, hi |-> {None, Sc(100), Se(<<100, 100>>), Se(<<100>>)},
                flows |-> {"all", "chosen", "wrong"}, factor |-> {"scalar", "series", "short"}]
LimitDraft(d) == /\ (d.kind # "integral" => ~Given(d.lo))
                 /\ (d.kind = "investPerPeriod" => d.flows = "all" /\ d.factor = "scalar")
                 /\ (d.kind = "integral" => d.hi.sh # "series")
LimitFaults(d) ==
  Fault(d.kind # "integral" /\ ~d.multi, "limit.periodsMissing")
  \cup Fault(~Given(d.hi) /\ ~Given(d.lo), "limit.missing")
  \cup Fault(d.kind # "integral" /\ d.multi /\ Short(d.hi, MPeriods), "limit.short")
  \cup Fault(d.flows = "wrong", "limit.unknownKeyword")
  \cup Fault(d.factor = "short", "limit.shortFactor")

OldNames == {"flowProperties", "nonconvexProperties", "investmentProperties"}
NameDomain == [what |-> {"names"}, multi |-> {FALSE}, kind |-> OldNames, old |-> BOOLEAN, new |-> BOOLEAN]
NameFaults(d) == Fault(d.old /\ d.new, "names.twice")

\* tables instead of series
TableDomain == [what |-> {"table"}, multi |-> {FALSE},
                where |-> {"flow.minimum", "flow.fix", "flow.variable_costs", "converter", "storage.loss", "none"}]
TableFaults(d) == Fault(d.where # "none", "series.dimension")

-----------------------------------------------------------------------------
\* what may be chosen for each parameter, and what a draft starts with
Domain(k) ==
  CASE k = "invest" -> InvestDomain
    [] k = "flow" -> FlowDomain
    [] k = "nonconvex" -> NonConvexDomain
    [] k = "storage" -> StorageDomain
    [] k = "offset" -> OffsetDomain
    [] k = "converter" -> ConverterDomain
    [] k = "piecewise" -> PiecewiseDomain
    [] k = "chp" -> ChpDomain
    [] k = "limit" -> LimitDomain
    [] k = "names" -> NameDomain
    [] k = "table" -> TableDomain

Start(k) ==
  CASE k = "invest" -> [what |-> k, multi |-> FALSE, use |-> "flow", kind |-> "convex", ex |-> 0, max |-> None,
                        off |-> None, ep |-> Sc(1), life |-> 0, age |-> 0]
    [] k = "flow" -> [what |-> k, multi |-> FALSE, cap |-> "none", old |-> FALSE, min |-> None, oldmin |-> FALSE,
                      max |-> None, oldmax |-> FALSE, fix |-> None, nc |-> "none", gp |-> None, gn |-> None,
                      flmax |-> FALSE, flmin |-> FALSE, vc |-> Sc(0)]
    [] k = "nonconvex" -> [what |-> k, multi |-> FALSE, invest |-> FALSE, init |-> 0, up |-> None, dn |-> None,
                           cs |-> None, cd |-> None, ca |-> None, ci |-> None]
    [] k = "storage" -> [what |-> k, multi |-> FALSE, nin |-> 1, nout |-> 1, cap |-> "num", old |-> FALSE, ex |-> 0,
                         imin |-> 0, life |-> 0, init |-> None, lmin |-> None, lmax |-> None, fla |-> None,
                         rel |-> {}, inInv |-> FALSE, outInv |-> FALSE, soc |-> "none", short |-> "none"]
    [] k = "offset" -> [what |-> k, multi |-> FALSE, ncIn |-> FALSE, ncOut |-> TRUE, invIn |-> FALSE, invOut |-> FALSE,
                        cfIn |-> FALSE, cfOut |-> FALSE, offIn |-> FALSE, offOut |-> FALSE, coef |-> FALSE, short |-> "none"]
    [] k = "converter" -> [what |-> k, multi |-> FALSE, kind |-> "converter", cf |-> "none", other |-> "scalar", unknown |-> FALSE]
    [] k = "piecewise" -> [what |-> k, multi |-> FALSE, nin |-> 1, nout |-> 1, cap |-> 4]
    [] k = "chp" -> [what |-> k, multi |-> FALSE, missing |-> "none", long |-> {}, short |-> {}]
    [] k = "limit" -> [what |-> k, multi |-> FALSE, kind |-> "integral", lo |-> None, hi |-> None, flows |-> "all", factor |-> "scalar"]
    [] k = "names" -> [what |-> k, multi |-> FALSE, kind |-> "flowProperties", old |-> FALSE, new |-> FALSE]
    [] k = "table" -> [what |-> k, multi |-> FALSE, where |-> "none"]

\* combinations that the property does not speak about
Meant(d) ==
  CASE d.what = "invest" -> InvestDraft(d)
    [] d.what = "flow" -> FlowDraft(d)
    [] d.what = "storage" -> StorageDraft(d)
    [] d.what = "offset" -> OffsetDraft(d)
    [] d.what = "converter" -> ConverterDraft(d)
    [] d.what = "chp" -> ("power" \in d.short => d.long = {})
    [] d.what = "limit" -> LimitDraft(d)
    [] OTHER -> TRUE

Faults(d) ==
  CASE d.what = "invest" -> InvestUseFaults(d)
    [] d.what = "flow" -> FlowFaults(d)
    [] d.what = "nonconvex" -> NonConvexFaults(d)
    [] d.what = "storage" -> StorageFaults(d)
    [] d.what = "offset" -> OffsetFaults(d)
    [] d.what = "converter" -> ConverterFaults(d)
    [] d.what = "piecewise" -> PiecewiseFaults(d)
    [] d.what = "chp" -> ChpFaults(d)
    [] d.what = "limit" -> LimitFaults(d)
    [] d.what = "names" -> NameFaults(d)
    [] d.what = "table" -> TableFaults(d)

\* parameters are chosen in a fixed order, at most MaxGiven of them
Names(k) == SetToSeq(DOMAIN Domain(k))
Init == \E k \in Kinds : draft = Start(k) /\ pc = "draft" /\ given = 0 /\ last = 0

Give == /\ pc = "draft" /\ given < MaxGiven
        /\ LET names == Names(draft.what) dom == Domain(draft.what) IN
           \E i \in (last + 1)..Len(names) : \E x \in dom[names[i]] :
             /\ x # draft[names[i]]
             /\ draft' = [draft EXCEPT ![names[i]] = x]
             /\ last' = i /\ given' = given + 1 /\ UNCHANGED pc

Show(faults) == PrintT("DRAFT " \o ToJson([d |-> draft, faults |-> faults]))
\* a component refuses the draft at once, or the model does
Refuse == /\ pc = "draft" /\ Meant(draft) /\ Faults(draft) # {}
          /\ pc' = "refused" /\ UNCHANGED <<draft, given, last>> /\ Show(Faults(draft))
Build == /\ pc = "draft" /\ Meant(draft) /\ Faults(draft) = {}
         /\ pc' = "model" /\ UNCHANGED <<draft, given, last>> /\ Show({})
Next == Give \/ Refuse \/ Build

-----------------------------------------------------------------------------
(* What the rules have to have in common *)
\* no draft is both, and none is neither
Decided == pc \in {"refused", "model"} => (pc = "model") = (Faults(draft) = {})
\* a flow with nothing but a capacity is fine, and so is one without anything
Sober == pc = "refused" /\ draft.what = "flow" =>
  ~(draft.cap \in {"none", "num"} /\ ~draft.old /\ ~draft.oldmin /\ ~draft.oldmax /\ ~Given(draft.min) /\ ~Given(draft.max)
    /\ ~Given(draft.fix) /\ draft.nc = "none" /\ ~Given(draft.gp) /\ ~Given(draft.gn) /\ ~draft.flmax /\ ~draft.flmin
    /\ draft.vc # Se(<<1, 2>>))
\* no model is built from a series that ends before the horizon does
Complete == pc = "model" /\ draft.what = "flow" =>
  \A p \in {draft.min, draft.max, draft.fix, draft.gp, draft.vc} : p.sh = "series" => Len(p.v) >= Steps
=============================================================================
