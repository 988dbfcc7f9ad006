-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic for TLC.                                      *)
(*                                                                         *)
(* A rational is a *numeral*: a string "n" or "n/d" in lowest terms with   *)
(* d > 1 and the sign on n ("0", "-3", "7/2").  TLC integers are 32-bit,   *)
(* annuity factors and geometric losses are not, so the operators below    *)
(* are evaluated by spec/java/Rat.java (java.math.BigInteger), exactly as  *)
(* TLC evaluates Integers!+ by a Java override.  The TLA+ definitions are  *)
(* the meaning: Num/Den read a numeral as a fraction, every operator       *)
(* returns the numeral of the field operation.  RatLaws.tla checks the     *)
(* override against integer arithmetic on <<n, d>> pairs.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* numeral of n/d (n, d TLC integers, d # 0)
Q(n, d) == CHOOSE r \in STRING : TRUE
\* numerator / denominator of a numeral, as TLC integers (error if >= 2^31)
Num(r) == CHOOSE n \in Int : \E d \in Int : d > 0 /\ Q(n, d) = r
Den(r) == CHOOSE d \in Int : d > 0 /\ \E n \in Int : Q(n, d) = r

RAdd(a, b) == Q(Num(a) * Den(b) + Num(b) * Den(a), Den(a) * Den(b))
RSub(a, b) == Q(Num(a) * Den(b) - Num(b) * Den(a), Den(a) * Den(b))
RMul(a, b) == Q(Num(a) * Num(b), Den(a) * Den(b))
RDiv(a, b) == Q(Num(a) * Den(b), Den(a) * Num(b))
RLe(a, b)  == Num(a) * Den(b) <= Num(b) * Den(a)
RLt(a, b)  == Num(a) * Den(b) < Num(b) * Den(a)
\* a^e for a rational exponent e: exact for integer e, else the double
\* nearest to the real power (only used for (1 - loss)^dt, dt fractional)
RPow(a, e) == CHOOSE r \in STRING : TRUE
\* Near(a, b, tol): |a - b| <= tol
Near(a, b, tol) == RLe(RSub(a, b), tol) /\ RLe(RSub(b, a), tol)
\* is the numeral within tol of an integer
NearInt(a, tol) == \E n \in Int : Near(a, Q(n, 1), tol)
\* sum of a sequence of numerals
RSum(s) == CHOOSE r \in STRING : TRUE
\* dot product of two sequences of numerals of equal length
RDot(s, w) == CHOOSE r \in STRING : TRUE
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
\* decimal rendering with 9 digits, for messages only
RShow(a) == a
=============================================================================
