---------------------------- MODULE EnergySystem ----------------------------
(***************************************************************************)
(* The dispatch and investment semantics of oemof.solph as a transition    *)
(* system over time.                                                       *)
(*                                                                         *)
(* One behaviour = one complete plan of an energy system:                  *)
(*     Plan  ->  Dispatch (one per time step)  ->  Close                   *)
(*                                                                         *)
(* `Plan` fixes the investments and the initial storage levels, every      *)
(* `Dispatch` assigns one value to every flow (and an on/off status to     *)
(* every flow with on/off operation, and a new level to every storage),    *)
(* `Close` applies the conditions that only the whole horizon decides and  *)
(* the total cost.  What solph promises is the guard of each action.  A    *)
(* guard is written as the *set of violated clauses*, each with a name, so *)
(* that an action is enabled iff its set is empty and a trace checker can  *)
(* say which clause an observed step breaks.                               *)
(*                                                                         *)
(* `Configs` is a sequence of system descriptions (see harness/config.py   *)
(* for the fields); `cid` selects one, so that a single TLC run explores   *)
(* many systems.  Numbers are exact rationals (Rat.tla).                   *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC

CONSTANTS Configs,  \* sequence of system descriptions
          TOL       \* comparison tolerance (a numeral): "0" when exploring

VARIABLES cid,      \* which system
          pc,       \* "plan" | "run" | "done"
          t,        \* next time step, 1..T+1
          plan,     \* [inv |-> unit -> period -> amount, ist |-> unit -> period -> 0/1]
          prev,     \* flow values of the previous step (<<>> before the first)
          on,       \* on/off status of the previous step, per flow (initially initial_status)
          holdOn,   \* steps (from now) a unit still has to stay on, per flow
          holdOff,  \* steps (from now) a unit still has to stay off
          late,     \* a unit was started so late that its minimum up-time exceeds the horizon
          ups, downs, \* start-ups / shut-downs so far, per flow
          level,    \* storage contents at the current time point
          level0,   \* storage contents at the first time point
          energy,   \* weighted flow integral so far, per flow
          caes,     \* contents of the compressed air plants: cavern, least and most heat
          acc,      \* running sums of the integral limits, limit -> period -> sum
          cost      \* cost so far

vars == <<cid, pc, t, plan, prev, on, holdOn, holdOff, late, ups, downs,
          level, level0, caes, energy, acc, cost>>

-----------------------------------------------------------------------------
(* Helpers *)

C == Configs[cid]
T == C.T
P == C.P
Flows == 1..Len(C.flows)
Units == 1..Len(C.units)
Stores == 1..Len(C.stores)
\* with aggregated time series, storages follow the original time axis
\* (Tsam.tla), not the typical steps
StepStores == IF C.agg THEN {} ELSE Stores
Limits == 1..Len(C.limits)
Periods == 1..P
F(f) == C.flows[f]
U(u) == C.units[u]
S(s) == C.stores[s]

Req(b, name) == IF b THEN {} ELSE {name}
LeT(a, b) == RLe(a, RAdd(b, TOL))
EqT(a, b) == Near(a, b, TOL)
Some(x) == x # ""
IsZero(a) == a = "0"
\* sums of f(i) over i in 1..n
SumTo(n, f(_)) == RSum([i \in 1..n |-> f(i)])
SumSeq(s, f(_)) == RSum([i \in 1..Len(s) |-> f(s[i])])
B2R(b) == IF b THEN "1" ELSE "0"
I2R(n) == Q(n, 1)
Min2(a, b) == IF a <= b THEN a ELSE b

-----------------------------------------------------------------------------
(* Investment: what capacity exists in which period *)

\* Is what was bought in period q still there in period p?  A unit of lifetime
\* L bought in period q retires in the first period that starts L or more
\* years later.
Retired(u, q, p) == C.multi /\ p > q /\ C.years[p] - C.years[q] >= U(u).life
\* exogenously existing capacity of a given age retires once, when its
\* remaining lifetime is used up (never before the second period)
ExRetired(u, p) == C.multi /\ p > 1 /\ U(u).life - U(u).age <= C.years[p]

Alive(u, q, p, inv) == IF q > p \/ Retired(u, q, p) THEN "0" ELSE inv[u][q]
Tot(u, p, inv) ==
  RAdd(IF ExRetired(u, p) THEN "0" ELSE U(u).ex,
       SumTo(P, LAMBDA q : Alive(u, q, p, inv)))

\* capacity of a flow at a step ("" when the flow has no capacity)
CapAt(f, p) == IF F(f).unit = 0 THEN F(f).nom ELSE Tot(F(f).unit, p, plan.inv)
StoreCap(s, p) == IF S(s).unit = 0 THEN S(s).nom ELSE Tot(S(s).unit, p, plan.inv)

PlanUnit(u, inv, ist) ==
  UNION { LET x == inv[u][p] y == ist[u][p] IN
    IF U(u).nc
    THEN Req(y \in {0, 1}, "invest.status")
         \cup Req(LeT(RMul(U(u).min[p], I2R(y)), x), "invest.min:" \o U(u).name)
         \cup Req(LeT(x, RMul(U(u).max[p], I2R(y))), "invest.max:" \o U(u).name)
    ELSE Req(LeT(U(u).min[p], x), "invest.min:" \o U(u).name)
         \cup Req(Some(U(u).max[p]) => LeT(x, U(u).max[p]), "invest.max:" \o U(u).name)
    : p \in Periods }
  \cup (IF C.multi
        THEN UNION { Req(Some(U(u).omax) => LeT(Tot(u, p, inv), U(u).omax),
                         "invest.overallMax:" \o U(u).name) : p \in Periods }
             \cup Req(Some(U(u).omin) => LeT(U(u).omin, Tot(u, P, inv)),
                      "invest.overallMin:" \o U(u).name)
        ELSE {})

\* fixed ratios between the capacities of a storage and of its two flows
PlanStore(s, inv, lv) ==
  LET st == S(s) IN
  UNION { Req(Len(st.relInOut) > 0 =>
                EqT(Tot(F(st.fi).unit, p, inv),
                    RMul(Tot(F(st.fo).unit, p, inv), st.relInOut[p])),
              "store.relInOut:" \o st.name)
          \cup Req(Len(st.relInCap) > 0 =>
                EqT(Tot(F(st.fi).unit, p, inv), RMul(Tot(st.unit, p, inv), st.relInCap[p])),
              "store.relInCap:" \o st.name)
          \cup Req(Len(st.relOutCap) > 0 =>
                EqT(Tot(F(st.fo).unit, p, inv), RMul(Tot(st.unit, p, inv), st.relOutCap[p])),
              "store.relOutCap:" \o st.name)
          : p \in Periods }
  \* the initial content
  \cup LET cap == IF st.unit = 0 THEN st.nom ELSE Tot(st.unit, 1, inv) IN
       IF st.unit # 0 /\ C.multi /\ ~C.agg
       THEN Req(EqT(lv[s], "0"), "store.initiallyEmpty:" \o st.name)
            \cup Req(LeT(RMul(cap, st.lmin[1]), "0"), "store.min:" \o st.name)
       ELSE (IF Some(st.init)
             THEN Req(EqT(lv[s], RMul(st.init, cap)), "store.init:" \o st.name)
             ELSE {})
            \cup Req(LeT(RMul(cap, st.lmin[1]), lv[s]), "store.min:" \o st.name)
            \cup Req(LeT(lv[s], RMul(cap, st.lmax[1])), "store.max:" \o st.name)

-----------------------------------------------------------------------------
(* Investment cost *)

\* annuity of capex over n years at interest rate i
Annuity(capex, n, i) ==
  LET g == RPow(RAdd("1", i), I2R(n)) IN
  RMul(capex, RDiv(RMul(i, g), RSub(g, "1")))
\* present value of n yearly payments of 1
PVF(n, i) == RDiv("1", Annuity("1", n, i))

\* yearly costs fc[lo] + ... + fc[hi] (none given: 0)
FixSum(fc, lo, hi) ==
  IF Len(fc) = 0 \/ hi < lo THEN "0"
  ELSE RSum([y \in 1..(hi - lo + 1) |-> fc[lo - 1 + y]])

Interest(u) == IF U(u).kind = "flow" THEN C.flowInterest ELSE C.discount
EndYear == C.endYear
RemYears(p) == EndYear - C.years[p]

\* what the purchase of period p costs
Purchase(u, p, inv, ist) ==
  LET n == U(u) i == Interest(u) IN
  IF ~C.multi
  THEN RAdd(RMul(inv[u][p], n.ep[p]), IF n.nc THEN RMul(I2R(ist[u][p]), n.off[p]) ELSE "0")
  ELSE RAdd(RMul(inv[u][p],
              RMul(Annuity(n.ep[p], n.life, i), PVF(Min2(RemYears(p), n.life), i))),
        IF ~n.nc THEN "0"
        ELSE RMul(I2R(ist[u][p]),
                  IF n.kind = "flow" THEN Annuity(n.off[p], n.life, i) ELSE n.off[p]))

\* difference between replacement value and book value at the end
Remaining(u, p, inv, ist) ==
  LET n == U(u) i == Interest(u) IN
  IF C.multi /\ C.remaining /\ RemYears(p) < n.life
  THEN LET r == n.life - RemYears(p) IN
       RAdd(RMul(inv[u][p],
              RMul(RSub(Annuity(n.ep[P], r, i), Annuity(n.ep[p], r, i)), PVF(r, i))),
            IF n.nc THEN RMul(I2R(ist[u][p]), RSub(n.off[P], n.off[p])) ELSE "0")
  ELSE "0"

\* yearly fixed cost while a purchase is alive, and of existing capacity
Fixed(u, inv) ==
  LET n == U(u) IN
  IF ~C.multi THEN "0"
  ELSE RAdd(
      SumTo(P, LAMBDA p :
        RMul(inv[u][p],
          FixSum(n.fc, C.years[p] + 1, Min2(EndYear, C.years[p] + n.life)))),
      RMul(n.ex, FixSum(n.fc, 1, Min2(EndYear, n.life - n.age))))

UnitCost(u, inv, ist) ==
  RAdd(SumTo(P, LAMBDA p : RAdd(Purchase(u, p, inv, ist), Remaining(u, p, inv, ist))),
       Fixed(u, inv))

PlanCost(inv, ist) ==
  RAdd(SumTo(Len(C.units), LAMBDA u : UnitCost(u, inv, ist)),
  RAdd(
    \* fixed costs of flows with given capacity (multi-period only)
    SumTo(Len(C.flows), LAMBDA f :
      IF ~C.multi \/ F(f).unit # 0 \/ ~Some(F(f).nom) \/ Len(F(f).fc) = 0 THEN "0"
      ELSE RMul(F(f).nom,
             FixSum(F(f).fc, 1, IF F(f).life = 0 THEN EndYear
                                ELSE Min2(EndYear, F(f).life - F(f).age)))),
    SumTo(Len(C.stores), LAMBDA s :
      IF S(s).unit # 0 \/ Len(S(s).fc) = 0 THEN "0"
      ELSE RMul(S(s).nom, FixSum(S(s).fc, 1, EndYear)))))

\* constraints that couple investments
PlanLimit(k, inv, ist) ==
  LET L == C.limits[k] IN
  CASE L.kind = "equateInvest" ->
         Req(\A j \in 1..Len(L.periods) : LET p == L.periods[j] IN EqT(RMul(inv[L.units[1]][p], L.factor), inv[L.units[2]][p]),
             "limit.equateInvest")
    [] L.kind = "investAttr" ->
         Req(LeT(RSum([i \in 1..Len(L.units) |->
                   RMul(L.w[i], SumTo(P, LAMBDA p : inv[L.units[i]][p]))]), L.hi),
             "limit.investAttr")
    [] L.kind = "investCost" ->
         IF L.per
         THEN UNION { Req(LeT(SumTo(Len(C.units), LAMBDA u : Purchase(u, p, inv, ist)), L.hi[p]),
                          "limit.investCostPerPeriod") : p \in Periods }
         ELSE Req(LeT(SumTo(Len(C.units), LAMBDA u :
                    SumTo(P, LAMBDA p : RAdd(Purchase(u, p, inv, ist), Remaining(u, p, inv, ist)))),
                    L.hi[1]), "limit.investCost")
    [] OTHER -> {}

PlanViolations(inv, ist, lv) ==
  UNION { PlanUnit(u, inv, ist) : u \in Units }
  \cup UNION { PlanStore(s, inv, lv) : s \in Stores }
  \cup UNION { PlanLimit(k, inv, ist) : k \in Limits }

-----------------------------------------------------------------------------
(* One time step: flows *)

Dt == C.dt[t]
Per == C.period[t]

FlowClauses(f, v, st) ==
  LET x == v[f] d == F(f) cap == CapAt(f, Per) n == d.name IN
  \* direction
  Req(d.uni => LeT("0", x), "flow.direction:" \o n)
  \cup (IF ~Some(cap) THEN {}
        ELSE IF d.nc
        THEN \* on/off operation: zero when off, within the load range when on
             Req(st[f] \in {0, 1}, "nonconvex.binary:" \o n)
             \cup Req(LeT(RMul(RMul(I2R(st[f]), cap), d.min[t]), x), "nonconvex.min:" \o n)
             \cup Req(LeT(x, RMul(RMul(I2R(st[f]), cap), d.max[t])), "nonconvex.max:" \o n)
        ELSE IF Len(d.fix) > 0 THEN {}
        ELSE Req(LeT(RMul(cap, d.min[t]), x), "flow.min:" \o n)
             \cup Req(LeT(x, RMul(cap, d.max[t])), "flow.max:" \o n))
  \cup (IF Len(d.fix) > 0 THEN Req(EqT(x, RMul(cap, d.fix[t])), "flow.fix:" \o n) ELSE {})
  \cup Req(d.int => NearInt(x, TOL) /\ LeT("0", x), "flow.integer:" \o n)
  \cup (IF t = 1 \/ Len(d.gp) = 0 THEN {}
        ELSE Req(LeT(RSub(x, prev[f]), RMul(cap, d.gp[t])), "flow.gradientUp:" \o n))
  \cup (IF t = 1 \/ Len(d.gn) = 0 THEN {}
        ELSE Req(LeT(RSub(prev[f], x), RMul(cap, d.gn[t])), "flow.gradientDown:" \o n))
  \cup (IF C.multi /\ d.unit = 0 /\ d.life > 0 /\ d.life - d.age <= C.years[Per]
        THEN Req(EqT(x, "0"), "flow.lifetime:" \o n) ELSE {})

Started(f, st) == F(f).nc /\ on[f] = 0 /\ st[f] = 1
Stopped(f, st) == F(f).nc /\ on[f] = 1 /\ st[f] = 0

StatusClauses(f, st) ==
  LET d == F(f) n == d.name IN
  IF ~d.nc THEN {}
  ELSE \* the initial status is kept for the minimum up- or down-time
       Req(t <= d.first => st[f] = d.init, "nonconvex.initial:" \o n)
       \cup Req(holdOn[f] > 0 => st[f] = 1, "nonconvex.minUptime:" \o n)
       \cup Req(holdOff[f] > 0 => st[f] = 0, "nonconvex.minDowntime:" \o n)
       \cup Req(Started(f, st) /\ d.maxup >= 0 => ups[f] < d.maxup, "nonconvex.maxStartups:" \o n)
       \cup Req(Stopped(f, st) /\ d.maxdn >= 0 => downs[f] < d.maxdn, "nonconvex.maxShutdowns:" \o n)

-----------------------------------------------------------------------------
(* One time step: nodes *)

BusClauses(b, v) ==
  LET bus == C.buses[b] IN
  Req(bus.balanced =>
        EqT(SumSeq(bus.ins, LAMBDA f : v[f]), SumSeq(bus.outs, LAMBDA f : v[f])),
      "bus.balance:" \o bus.name)

\* a converter: every input/output pair in the ratio of its conversion factors
ConvClauses(k, v) ==
  LET c == C.convs[k] IN
  UNION { UNION {
    Req(EqT(RMul(v[i.f], o.cf[t]), RMul(v[o.f], i.cf[t])), "converter.ratio:" \o c.name)
    : o \in {c.outs[j] : j \in 1..Len(c.outs)} }
    : i \in {c.ins[j] : j \in 1..Len(c.ins)} }

\* a link: output = factor * input, per connection
LinkClauses(k, v) ==
  LET c == C.links[k] IN
  UNION { Req(EqT(v[c.conns[j].fo], RMul(v[c.conns[j].fi], c.conns[j].cf[t])),
              "link.ratio:" \o c.name) : j \in 1..Len(c.conns) }

\* an offset converter: every other flow is affine in the reference flow
\* while that is on, and zero while it is off.  The line is given by slope and
\* offset, or by the efficiencies at maximum and at minimum load
OffsetClauses(k, v, st) ==
  LET c == C.offs[k]
      d == F(c.ref)
      on1 == RMul(I2R(st[c.ref]), CapAt(c.ref, Per))
      \* the other flow per capacity at load l with efficiency eta
      Other(l, eta) == IF c.atInput THEN RMul(l, eta) ELSE RDiv(l, eta) IN
  UNION { LET o == c.others[j] IN
          Req(IF Len(o.etaMax) = 0
              THEN EqT(v[o.f], RAdd(RMul(v[c.ref], o.cf[t]), RMul(on1, o.off[t])))
              ELSE LET lo == Other(d.min[t], o.etaMin[t]) hi == Other(d.max[t], o.etaMax[t]) IN
                   EqT(RMul(RSub(v[o.f], RMul(on1, lo)), RSub(d.max[t], d.min[t])),
                       RMul(RSub(v[c.ref], RMul(on1, d.min[t])), RSub(hi, lo))),
              "offset.relation:" \o c.name) : j \in 1..Len(c.others) }

\* an extraction turbine: tapping heat costs main output, up to back-pressure
ExtractClauses(k, v) ==
  LET c == C.extracts[k]
      beta == RDiv(RSub(c.full[t], c.cmain[t]), c.ctap[t]) IN
  Req(EqT(RMul(v[c.fin], c.full[t]), RAdd(v[c.main], RMul(v[c.tap], beta))),
      "extraction.fuel:" \o c.name)
  \cup Req(LeT(RMul(v[c.tap], RDiv(c.cmain[t], c.ctap[t])), v[c.main]),
      "extraction.backPressure:" \o c.name)

\* a generic CHP: idle, or electricity, heat and fuel inside the area spanned
\* by the load limits without heat extraction (H = a0 + a1 * equivalent power),
\* the power loss index beta, and the flue gas losses plus minimal cooling load
ChpClauses(k, v) ==
  LET c == C.chps[k]
      h == v[c.fuel] p == v[c.el] q == v[c.heat]
      hlo == RDiv(c.pmin[t], c.emin[t])  \* fuel at minimum load
      hhi == RDiv(c.pmax[t], c.emax[t])  \* fuel at maximum load
      a1 == RDiv(RSub(hhi, hlo), RSub(c.pmax[t], c.pmin[t]))
      a0 == RSub(hlo, RMul(a1, c.pmin[t]))
      equiv == RAdd(p, RMul(c.beta[t], q))
      used(share) == RAdd(RAdd(p, q), RAdd(RMul(share, h), c.qcw[t]))
      idle == EqT(h, "0") /\ EqT(p, "0") /\ EqT(q, "0") IN
  Req(LeT("0", h) /\ LeT("0", p) /\ LeT("0", q), "chp.direction:" \o c.name)
  \cup (IF idle THEN {}
        ELSE Req(EqT(h, RAdd(a0, RMul(a1, equiv))), "chp.fuel:" \o c.name)
             \cup Req(LeT(hlo, h), "chp.minLoad:" \o c.name)
             \cup Req(LeT(h, hhi), "chp.maxLoad:" \o c.name)
             \cup Req(IF c.bp THEN EqT(used(c.smax[t]), h) ELSE LeT(used(c.smax[t]), h),
                      "chp.maxHeat:" \o c.name)
             \cup Req(Len(c.smin) > 0 => LeT(h, used(c.smin[t])), "chp.minHeat:" \o c.name))

\* a piecewise linear converter: the output is the value of its function at
\* the input, linear between the breakpoints xs (function values ys)
PwlClauses(k, v) ==
  LET c == C.pwls[k] x == v[c.fin] y == v[c.fout] n == Len(c.xs)
      Interpolate(i) == RAdd(c.ys[i], RMul(RSub(x, c.xs[i]),
                          RDiv(RSub(c.ys[i + 1], c.ys[i]), RSub(c.xs[i + 1], c.xs[i])))) IN
  Req(LeT(c.xs[1], x) /\ LeT(x, c.xs[n]), "piecewise.domain:" \o c.name)
  \cup Req(\E i \in 1..(n - 1) : LeT(c.xs[i], x) /\ LeT(x, c.xs[i + 1]) /\ EqT(y, Interpolate(i)),
           "piecewise.value:" \o c.name)

-----------------------------------------------------------------------------
(* One time step: compressed air plants.  A compressor fills a cavern, an     *)
(* expander empties it; what either can do depends on the filling at the      *)
(* start of the step.  Part of the heat of compression is kept; part of the   *)
(* heat the expander needs comes from that store or from other heat that      *)
(* costs nothing, so that the heat kept is only known to lie between lo, hi.  *)

Line(l, x, running) == IF running THEN RAdd(RMul(l.m, x), l.b) ELSE "0"
\* running: it takes or gives power (the least load of a plant is not zero)
Runs(x) == ~LeT(x, "0")

CaesNext(k, v) ==
  LET c == C.caes[k] s == caes[k] x == v[c.el] y == v[c.out]
      kept == RMul(Dt, RMul(c.cmp.share, Line(c.cmp.heat, x, Runs(x))))
      need == RMul(Dt, RMul(c.exp.share, Line(c.exp.heat, y, Runs(y)))) IN
  [cav |-> RDiv(RAdd(s.cav, RMul(Dt, RSub(Line(c.cmp.air, x, Runs(x)), Line(c.exp.air, y, Runs(y))))), c.eta),
   lo |-> RMax("0", RSub(RAdd(s.lo, kept), need)),
   hi |-> RMin(RAdd(s.hi, kept), c.heatMax)]

CaesClauses(k, v) ==
  LET c == C.caes[k] s == caes[k] n == CaesNext(k, v) x == v[c.el] y == v[c.out]
      Side(d, p, name) ==
        Req(LeT("0", p), "caes.direction:" \o name)
        \cup Req(LeT(p, RAdd(RMul(d.power.m, s.cav), d.power.b)), "caes.max:" \o name)
        \cup (IF ~Runs(p) THEN {}
              ELSE Req(LeT(d.min, p), "caes.min:" \o name)
                   \cup Req(LeT(p, RAdd(RMul(d.power.m, c.cavMax), d.power.b)), "caes.maxFull:" \o name)
                   \cup Req(LeT("0", Line(d.heat, p, TRUE)), "caes.heat:" \o name)
                   \cup Req(LeT("0", Line(d.air, p, TRUE)), "caes.air:" \o name)) IN
  Side(c.cmp, x, c.name \o ".compressor") \cup Side(c.exp, y, c.name \o ".expander")
  \cup Req(EqT(v[c.fuel], RMul(RSub("1", c.exp.share), Line(c.exp.heat, y, Runs(y)))), "caes.fuel:" \o c.name)
  \cup Req(LeT("0", n.cav), "caes.cavernMin:" \o c.name)
  \cup Req(LeT(n.cav, c.cavMax), "caes.cavernMax:" \o c.name)
  \cup Req(LeT(n.lo, c.heatMax), "caes.heatStore:" \o c.name)

-----------------------------------------------------------------------------
(* One time step: storages *)

Keep(s) == RPow(RSub("1", S(s).loss[t]), Dt)
\* the content at the next time point that the flows imply
NextLevel(s, v) ==
  LET st == S(s) cap == StoreCap(s, Per) IN
  RAdd(RMul(level[s], Keep(s)),
    RMul(Dt,
      RSub(RSub(RMul(v[st.fi], st.ein[t]), RDiv(v[st.fo], st.eout[t])),
           RAdd(RMul(st.flr[t], cap), st.fla[t]))))

StoreClauses(s, v, lv) ==
  LET st == S(s) n == st.name x == lv[s]
      \* a period's capacity bounds the content at the time points before its steps
      pn == IF t < T THEN C.period[t + 1] ELSE Per
      cap == StoreCap(s, pn) IN
  Req(EqT(x, NextLevel(s, v)), "store.balance:" \o n)
  \cup Req(st.unit # 0 => LeT("0", x), "store.nonnegative:" \o n)
  \cup Req(LeT(RMul(cap, st.lmin[t + 1]), x), "store.min:" \o n)
  \cup Req(LeT(x, RMul(cap, st.lmax[t + 1])), "store.max:" \o n)
  \* charging power falls linearly once the content exceeds a threshold
  \cup (IF ~st.soc THEN {}
        ELSE LET pmax == RMul(st.chcap, st.chmax[t])
                 slope == RDiv(RMul(pmax, RSub("1", st.fsc)),
                               RMul(RMul(st.nom, st.lmax[t]), RSub("1", st.csu)))
                 b == RMul(pmax, RAdd(RDiv(RSub("1", st.fsc), RSub("1", st.csu)), st.fsc)) IN
             Req(LeT(v[st.fi], RSub(b, RMul(slope, x))), "store.socCharge:" \o n))

-----------------------------------------------------------------------------
(* One time step: coupling constraints *)

StepLimit(k, v, st, lv) ==
  LET L == C.limits[k] IN
  CASE L.kind = "equateFlows" ->
         Req(EqT(RMul(L.factor, SumSeq(L.a, LAMBDA f : v[f])), SumSeq(L.b, LAMBDA f : v[f])),
             "limit.equateFlows")
    [] L.kind = "count" ->
         LET n == SumSeq(L.flows, LAMBDA f : I2R(st[f])) IN
         Req(Some(L.hi) => RLe(n, L.hi), "limit.countMax")
         \cup Req(Some(L.lo) => RLe(L.lo, n), "limit.countMin")
    [] L.kind = "shared" ->
         LET n == RDot([i \in 1..Len(L.stores) |-> level[L.stores[i]]], L.w) IN
         Req(Some(L.hi) => LeT(n, L.hi), "limit.sharedMax")
         \cup Req(Some(L.lo) => LeT(L.lo, n), "limit.sharedMin")
    [] L.kind = "levels" /\ ~C.agg ->
         \* a tap delivers only while the content after the step reaches its
         \* level, an inlet takes in only while the content before it does
         \* not exceed its level
         LET cap == S(L.store).nom IN
         UNION { LET o == L.outs[i] IN
                 Req(LeT(v[o.f], "0") \/ LeT(RMul(o.lv, cap), lv[L.store]), "limit.levelOut")
                 : i \in 1..Len(L.outs) }
         \cup
         UNION { LET o == L.ins[i] IN
                 Req(LeT(v[o.f], "0") \/ LeT(level[L.store], RMul(o.lv, cap)), "limit.levelIn")
                 : i \in 1..Len(L.ins) }
    [] OTHER -> {}

DispatchViolations(v, st, lv) ==
  UNION { FlowClauses(f, v, st) \cup StatusClauses(f, st) : f \in Flows }
  \cup UNION { BusClauses(b, v) : b \in 1..Len(C.buses) }
  \cup UNION { ConvClauses(k, v) : k \in 1..Len(C.convs) }
  \cup UNION { LinkClauses(k, v) : k \in 1..Len(C.links) }
  \cup UNION { OffsetClauses(k, v, st) : k \in 1..Len(C.offs) }
  \cup UNION { ExtractClauses(k, v) : k \in 1..Len(C.extracts) }
  \cup UNION { ChpClauses(k, v) : k \in 1..Len(C.chps) }
  \cup UNION { PwlClauses(k, v) : k \in 1..Len(C.pwls) }
  \cup UNION { CaesClauses(k, v) : k \in 1..Len(C.caes) }
  \cup UNION { StoreClauses(s, v, lv) : s \in StepStores }
  \cup UNION { StepLimit(k, v, st, lv) : k \in Limits }

-----------------------------------------------------------------------------
(* What a model records about its limits: the sum that is limited, one value *)
(* per step or one for the horizon (rec: limit -> values, empty if none)     *)

Recorded(rec, k, i, x) ==
  IF Len(rec) = 0 THEN {} ELSE IF Len(rec[k]) = 0 THEN {}
  ELSE Req(Near(rec[k][i], x, RMul(TOL, RAdd("1", RMax(x, RSub("0", x))))), "limit.recorded")

RecordedAtStep(rec, st) ==
  UNION { LET L == C.limits[k] IN
    CASE L.kind = "count" -> Recorded(rec, k, t, SumSeq(L.flows, LAMBDA f : I2R(st[f])))
      [] L.kind = "shared" ->
           Recorded(rec, k, t, RDot([i \in 1..Len(L.stores) |-> level[L.stores[i]]], L.w))
      [] OTHER -> {} : k \in Limits }

RecordedAtEnd(rec) ==
  UNION { LET L == C.limits[k] IN
    CASE L.kind = "integral" /\ Len(L.hi) = 1 -> Recorded(rec, k, 1, acc[k][1])
      [] L.kind = "investAttr" ->
           Recorded(rec, k, 1, RSum([i \in 1..Len(L.units) |->
             RMul(L.w[i], SumTo(P, LAMBDA p : plan.inv[L.units[i]][p]))]))
      [] OTHER -> {} : k \in Limits }

-----------------------------------------------------------------------------
(* One time step: cost *)

Discount == IF C.multi THEN RPow(RAdd("1", C.discount), I2R(0 - C.years[Per])) ELSE "1"

StatusCost(f, st) ==
  LET d == F(f) occ == C.occ[t] IN
  IF ~d.nc THEN "0"
  ELSE RSum(<<
    IF Started(f, st) THEN RMul(d.cs[t], occ) ELSE "0",
    IF Stopped(f, st) THEN RMul(d.cd[t], occ) ELSE "0",
    IF st[f] = 1 THEN RMul(d.ca[t], occ) ELSE RMul(d.ci[t], occ) >>)

StepCost(v, st, lv) ==
  RSum(<<
    SumTo(Len(C.flows), LAMBDA f :
      IF IsZero(F(f).vc[t]) THEN "0"
      ELSE RMul(RMul(RMul(v[f], F(f).vc[t]), RMul(C.w[t], C.occ[t])), Discount)),
    SumTo(Len(C.flows), LAMBDA f : StatusCost(f, st)),
    SumTo(Len(C.stores), LAMBDA s :
      IF C.agg \/ IsZero(S(s).sc[t]) THEN "0" ELSE RMul(lv[s], S(s).sc[t])) >>)

-----------------------------------------------------------------------------
(* The end of the horizon *)

CloseFlow(f) ==
  LET d == F(f) n == d.name
      base == IF d.unit = 0 THEN d.nom
              ELSE SumTo(P, LAMBDA p : Tot(d.unit, p, plan.inv)) IN
  (IF Some(d.fltmax) THEN Req(LeT(energy[f], RMul(d.fltmax, base)), "flow.fullLoadMax:" \o n) ELSE {})
  \cup (IF Some(d.fltmin) THEN Req(LeT(RMul(d.fltmin, base), energy[f]), "flow.fullLoadMin:" \o n) ELSE {})

CloseStore(s) ==
  LET st == S(s) IN
  Req(st.bal /\ ~(C.multi /\ st.unit # 0) => EqT(level[s], level0[s]),
      "store.balanced:" \o st.name)

CloseLimit(k) ==
  LET L == C.limits[k] IN
  CASE L.kind = "integral" ->
         UNION { Req(Some(L.hi[i]) => LeT(acc[k][i], L.hi[i]), "limit.integralMax")
                 \cup Req(Some(L.lo[i]) => LeT(L.lo[i], acc[k][i]), "limit.integralMin")
                 : i \in 1..Len(L.hi) }
    [] OTHER -> {}

CloseViolations ==
  UNION { CloseFlow(f) : f \in Flows }
  \cup UNION { CloseStore(s) : s \in StepStores }
  \cup UNION { CloseLimit(k) : k \in Limits }

-----------------------------------------------------------------------------
(* Actions *)

Init ==
  /\ cid \in 1..Len(Configs)
  /\ pc = "plan" /\ t = 1
  /\ plan = [inv |-> <<>>, ist |-> <<>>]
  /\ prev = <<>>
  /\ on = [f \in Flows |-> F(f).init]
  /\ holdOn = [f \in Flows |-> 0] /\ holdOff = [f \in Flows |-> 0]
  /\ late = FALSE
  /\ ups = [f \in Flows |-> 0] /\ downs = [f \in Flows |-> 0]
  /\ level = <<>> /\ level0 = <<>>
  /\ caes = [k \in 1..Len(C.caes) |-> [cav |-> "0", lo |-> "0", hi |-> "0"]]
  /\ energy = [f \in Flows |-> "0"]
  /\ acc = [k \in Limits |-> IF C.limits[k].kind = "integral"
                             THEN [i \in 1..Len(C.limits[k].hi) |-> "0"] ELSE <<>>]
  /\ cost = "0"

PlanEffect(inv, ist, lv) ==
  /\ pc = "plan" /\ pc' = "run"
  /\ plan' = [inv |-> inv, ist |-> ist]
  /\ level' = lv /\ level0' = lv
  /\ cost' = PlanCost(inv, ist)
  /\ UNCHANGED <<cid, t, prev, on, holdOn, holdOff, late, ups, downs, caes, energy, acc>>

Plan(inv, ist, lv) ==
  /\ pc = "plan"
  /\ PlanViolations(inv, ist, lv) = {}
  /\ PlanEffect(inv, ist, lv)

Dec(n) == IF n > 0 THEN n - 1 ELSE 0

DispatchEffect(v, st, lv) ==
  /\ pc = "run" /\ t <= T
  /\ t' = t + 1
  /\ prev' = v
  /\ on' = [f \in Flows |-> IF F(f).nc THEN st[f] ELSE 0]
  /\ holdOn' = [f \in Flows |-> IF Started(f, st) THEN Dec(F(f).up[t]) ELSE Dec(holdOn[f])]
  /\ holdOff' = [f \in Flows |-> IF Stopped(f, st) THEN Dec(F(f).dn[t]) ELSE Dec(holdOff[f])]
  /\ late' = (late \/ \E f \in Flows : Started(f, st) /\ t + F(f).up[t] - 1 > T)
  /\ ups' = [f \in Flows |-> IF Started(f, st) THEN ups[f] + 1 ELSE ups[f]]
  /\ downs' = [f \in Flows |-> IF Stopped(f, st) THEN downs[f] + 1 ELSE downs[f]]
  /\ level' = lv
  /\ caes' = [k \in 1..Len(C.caes) |-> CaesNext(k, v)]
  /\ energy' = [f \in Flows |->
       IF ~Some(F(f).fltmax) /\ ~Some(F(f).fltmin) THEN "0"
       ELSE RAdd(energy[f], RMul(v[f], RMul(Dt, C.occ[t])))]
  /\ acc' = [k \in Limits |->
       LET L == C.limits[k] IN
       IF L.kind # "integral" THEN <<>>
       ELSE [i \in 1..Len(L.hi) |->
         IF Len(L.hi) > 1 /\ i # Per THEN acc[k][i]
         ELSE RAdd(acc[k][i],
                RSum([j \in 1..Len(L.flows) |->
                   RMul(RMul(v[L.flows[j]], L.w[j][t]), RMul(C.dt[t], C.occ[t]))]))]]
  /\ cost' = RAdd(cost, StepCost(v, st, lv))
  /\ UNCHANGED <<cid, pc, plan, level0>>

Dispatch(v, st, lv) ==
  /\ pc = "run" /\ t <= T
  /\ DispatchViolations(v, st, lv) = {}
  /\ DispatchEffect(v, st, lv)

CloseEffect ==
  /\ pc = "run" /\ t = T + 1
  /\ pc' = "done"
  /\ UNCHANGED <<cid, t, plan, prev, on, holdOn, holdOff, late, ups, downs,
                 level, level0, caes, energy, acc, cost>>
Close == pc = "run" /\ t = T + 1 /\ CloseViolations = {} /\ CloseEffect
=============================================================================
