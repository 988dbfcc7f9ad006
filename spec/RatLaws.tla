------------------------------ MODULE RatLaws ------------------------------
(* The Java override of Rat agrees with pair arithmetic over Integers on a  *)
(* small domain, and Q yields canonical numerals.                          *)
EXTENDS Rat, TLC
CONSTANTS N, D
Ns == -N..N
Ds == 1..D
VARIABLE x
Init == x \in (Ns \X Ds \X Ns \X Ds)
Next == UNCHANGED x
Eq(r, n, d) == Num(r) * d = n * Den(r)
Laws ==
  LET a == x[1] b == x[2] c == x[3] d == x[4]
      p == Q(a, b) q == Q(c, d) IN
  /\ Eq(p, a, b) /\ (a * d = c * b <=> p = q)
  /\ Eq(RAdd(p, q), a * d + c * b, b * d)
  /\ Eq(RSub(p, q), a * d - c * b, b * d)
  /\ Eq(RMul(p, q), a * c, b * d)
  /\ (c # 0 => Eq(RDiv(p, q), a * d, b * c))
  /\ RLe(p, q) = (a * d <= c * b) /\ RLt(p, q) = (a * d < c * b)
  /\ RSum(<<p, q, p>>) = RAdd(RAdd(p, q), p)
  /\ RDot(<<p, q>>, <<q, p>>) = RAdd(RMul(p, q), RMul(q, p))
  /\ RPow(p, "2") = RMul(p, p) /\ RPow(p, "0") = "1"
  /\ (a # 0 => RPow(p, "-1") = RDiv("1", p))
  /\ NearInt(p, "1/3") = (\E n \in -N..N : Near(p, Q(n, 1), "1/3"))
  /\ RMax(p, q) = (IF a * d <= c * b THEN q ELSE p)
  /\ Near(p, q, "1/2") = (2 * (a * d - c * b) <= b * d /\ 2 * (c * b - a * d) <= b * d)
=============================================================================
