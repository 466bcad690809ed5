--------------------------------- MODULE Num ---------------------------------
(* Exact and fixed-point arithmetic shared by the specifications.          *)
EXTENDS Integers, Sequences

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE SumFn(_, _)
(* sum of f[x] over the finite set S *)
SumFn(f, S) == IF S = {} THEN 0
               ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumFn(f, S \ {x})

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol

(* floor division and rounding to nearest for possibly negative numerators, *)
(* positive denominators (TLA+ \div is floor division)                       *)
RoundDiv(a, b) == (2 * a + b) \div (2 * b)

(* rationals <<num, den>>, den > 0 *)
RAdd(p, q) == <<p[1] * q[2] + q[1] * p[2], p[2] * q[2]>>
RMul(p, q) == <<p[1] * q[1], p[2] * q[2]>>
RLess(p, q) == p[1] * q[2] < q[1] * p[2]
REq(p, q) == p[1] * q[2] = q[1] * p[2]

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
RNorm(p) == LET g == Gcd(p[1], p[2]) IN IF g = 0 THEN <<0, 1>> ELSE <<p[1] \div g, p[2] \div g>>

Range(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

(* natural logarithm of 1..64 in units of 1e-6 *)
LnTab == <<0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442,
  2197225, 2302585, 2397895, 2484907, 2564949, 2639057, 2708050, 2772589,
  2833213, 2890372, 2944439, 2995732, 3044522, 3091042, 3135494, 3178054,
  3218876, 3258097, 3295837, 3332205, 3367296, 3401197, 3433987, 3465736,
  3496508, 3526361, 3555348, 3583519, 3610918, 3637586, 3663562, 3688879,
  3713572, 3737670, 3761200, 3784190, 3806662, 3828641, 3850148, 3871201,
  3891820, 3912023, 3931826, 3951244, 3970292, 3988984, 4007333, 4025352,
  4043051, 4060443, 4077537, 4094345, 4110874, 4127134, 4143135, 4158883>>
Ln6(n) == LnTab[n]
=============================================================================
