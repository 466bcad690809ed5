-------------------------------- MODULE MC_Lit --------------------------------
EXTENDS Lit, Json
CONSTANTS YS, SS, MAXLEN
VARIABLES s, n
MCYs == -2..3
MCYsT == -6..8
mvars == <<s, n>>
(* ------------------------------------------------------------ exhaustive *)
(* the density is the same for the three types when they coincide, peaks at   *)
(* the mode, is symmetric under exchanging sides, and points out of the band  *)
(* are impossible                                                             *)
Pt(x, y, e) == [x |-> x, y |-> y, e |-> e, nan |-> FALSE]
MInit == n = 0 /\ s \in [x : 0..6, y : YS, m : YS, p : SS, q : SS, e : 0..2, d : {-2, 0, 3}]
MNext == n = 0 /\ n' = 1 /\ s' = s
MSpec == MInit /\ [][MNext]_mvars
V(t, a, x, y, e, d) == Value(t, a, <<Pt(x, y, e)>>, d)
Band == <<[x |-> 1, m |-> s.m, p |-> s.p, n |-> s.q], [x |-> 5, m |-> s.m, p |-> s.p, n |-> s.q]>>
THN1(m, p, q) == <<[m |-> m, p |-> p, n |-> q]>>
InvSame == /\ s.x \in 1..5 => V("band", Band, s.x, s.y, s.e, s.d) = V("twohalfnorm", THN1(s.m, s.p, s.q), s.x, s.y, s.e, s.d)
           /\ s.x \notin 1..5 => V("band", Band, s.x, s.y, s.e, s.d).k = "-inf"
           /\ s.p = s.q => V("norm", <<[m |-> s.m, s |-> s.p]>>, s.x, s.y, s.e, s.d)
                           = V("twohalfnorm", THN1(s.m, s.p, s.q), s.x, s.y, s.e, s.d)
InvShape ==
  LET f(y, m, p, q) == V("twohalfnorm", THN1(m, p, q), 0, y, 2, 0).v
  IN /\ f(s.y, s.m, s.p, s.q) <= f(s.m, s.m, s.p, s.q)
     /\ f(s.y + s.d, s.m, s.p, s.q) = V("twohalfnorm", THN1(s.m, s.p, s.q), 0, s.y, 2, s.d).v
     /\ f(s.y, s.m, s.p, s.q) = f(-s.y, -s.m, s.q, s.p)
     /\ V("twohalfnorm", THN1(s.m, s.p, s.q), 0, s.y, 0, 0).v = 0

(* ---------------------------------------------------------------- generation *)
RE(S, h) == RandomElement(IF h >= 0 THEN S ELSE {})
Xs == {0, 1, 2, 3, 4, 5, 6, 7, 8}
GPt(h) == [x |-> RE(IF RE(1..8, h) = 1 THEN {-1, 9, 12} ELSE Xs, h), y |-> RE(-8..12, h),
           e |-> RE({0, 1, 2, 2, 2}, h), nan |-> RE(1..60, h) = 1]
GPtIn(h) == [GPt(h) EXCEPT !.x = RE(Xs, h), !.nan = FALSE]
GLen(h) == RE(1..6, h)
GArgs(t, k, h) ==
  CASE t = "norm" -> [i \in 1..k |-> [m |-> RE(-3..6, h), s |-> RE(1..4, h)]]
    [] t = "twohalfnorm" -> [i \in 1..k |-> [m |-> RE(-3..6, h), p |-> RE(1..5, h), n |-> RE(1..5, h)]]
    [] OTHER -> [i \in 1..3 |-> [x |-> <<0, 4, 8>>[i], m |-> 4 * RE(-1..2, h), p |-> 4 * RE(1..3, h) - 2,
                                 n |-> 4 * RE(1..3, h) - 2]]
GLlh(h) == [batch |-> RE({1, 1, 2, 50}, h), d |-> RE(-3..3, h), seed |-> RE(1..9, h)]
GScen(t, k, bad, h) ==
  [vtype |-> t, args |-> GArgs(t, k, h), pts |-> [i \in 1..k |-> IF bad THEN GPt(h) ELSE GPtIn(h)],
   shape2 |-> RE({TRUE, FALSE}, h), alias |-> RE({TRUE, FALSE}, h), swap |-> RE({TRUE, FALSE}, h),
   calls |-> [i \in 1..3 |-> GLlh(h)]]
GInit == s = <<>> /\ n = 0
GNext == /\ n < MAXLEN
         /\ n' = n + 1
         /\ \E t \in {RE(Types, n)} : \E k \in {GLen(n)} : \E b \in {RE({TRUE, FALSE, FALSE}, n)} :
            \E x \in {GScen(t, k, b, n)} : s' = x /\ PrintT("G|" \o ToJson(x))
GSpec == GInit /\ [][GNext]_mvars
=============================================================================
