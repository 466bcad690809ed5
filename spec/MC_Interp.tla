------------------------------ MODULE MC_Interp ------------------------------
EXTENDS Interp, Json
CONSTANTS VALS, MAXLEN, DIMS, QS
VARIABLES s, n
mvars == <<s, n>>
(* ------------------------------------------------------------ exhaustive *)
Maps(d) == [dims : {d}, size : {[a \in DOMAIN d |-> a]}, v : [1..Product(d) -> VALS]]
D1 == <<3>>
D2x == <<2, 3>>
D2y == <<3, 2>>
D3x == <<2, 2, 2>>
Ds == {D1, D2x, D2y}
DsT == {D1, D2x, D2y, D3x}
Qs(d) == [DOMAIN d -> QS]
Quick == {-3, 1, 2, 4, 8}
Full == {-3, 0, 1, 2, 4, 5, 7, 8, 11}
MInit == n = 0 /\ \E d \in DIMS : s \in [m : Maps(d), q : {[a \in DOMAIN d |-> 0]}]
MNext == n = 0 /\ n' = 1 /\ \E q \in Qs(s.m.dims) : s' = [s EXCEPT !.q = q]
MSpec == MInit /\ [][MNext]_mvars
Scale == 4 ^ Len(s.m.dims)
Swap(x) == IF Len(x) < 2 THEN x ELSE <<x[2], x[1]>> \o SubSeq(x, 3, Len(x))
Transposed(m) ==
  IF Len(m.dims) < 2 THEN m
  ELSE LET d == Swap(m.dims)
           ixs == {ix \in [DOMAIN d -> 0..2] : \A a \in DOMAIN d : ix[a] < d[a]}
       IN [dims |-> d, size |-> Swap(m.size),
           v |-> [p \in 1..Product(d) |-> LET ix == CHOOSE i \in ixs : Flat1(d, i) = p IN At(m, Swap(ix))]]
InvLerp == /\ Lerp(s.m, s.q) >= Scale * Lowest(s.m.v) /\ Lerp(s.m, s.q) <= Scale * Highest(s.m.v)
           /\ OnNode(s.m, s.q) => Lerp(s.m, s.q) = Scale * NodeValue(s.m, s.q)
           /\ Lerp(s.m, s.q) = Lerp(s.m, Clamped(s.m, s.q))
           /\ Lerp(s.m, s.q) = Lerp(Transposed(s.m), Swap(s.q))
InvNear == /\ Nearest(s.m, s.q) \subseteq Range(s.m.v) /\ Nearest(s.m, s.q) # {}
           /\ OnNode(s.m, s.q) => Nearest(s.m, s.q) = {NodeValue(s.m, s.q)}
           /\ Nearest(s.m, s.q) = Nearest(Transposed(s.m), Swap(s.q))
InvIdw == Strict(s.m, s.q) => LET r == Idw(s.m, s.q)
                              IN /\ r[1] >= r[2] * Lowest(s.m.v) /\ r[1] <= r[2] * Highest(s.m.v)
                                 /\ r = Idw(Transposed(s.m), Swap(s.q))
(* a point map on the same nodes is the regular map                             *)
InvPoint == Len(s.m.dims) = 1 =>
  LET r == PLerp([i \in 1..s.m.dims[1] |-> i - 1], s.m.v, s.q[1])
  IN /\ 4 * r[1] = r[2] * Lerp(s.m, s.q)
     /\ PNear([i \in 1..s.m.dims[1] |-> i - 1], s.m.v, s.q[1]) = Nearest(s.m, s.q)

(* ---------------------------------------------------------------- generation *)
RE(S, h) == RandomElement(IF h >= 0 THEN S ELSE {})
Methods == {"IDW", "NN", "LERP"}
GReg(k, h) ==
  LET d == [a \in 1..k |-> RE(2..4, h)]
  IN [kind |-> "reg", dims |-> d, log |-> [a \in 1..k |-> RE({TRUE, FALSE}, h)], lo |-> [a \in 1..k |-> RE(-3..3, h)],
      step |-> [a \in 1..k |-> RE({1, 2}, h)]]
(* values come last because their number depends on the dimensions                *)
GVals(x, h) == [kind |-> x.kind, dims |-> x.dims, log |-> x.log, lo |-> x.lo, step |-> x.step,
                v |-> [i \in 1..Product(x.dims) |-> RE(-9..20, h)], method |-> RE(Methods, h),
                style |-> RE(1..4, h),
                qs |-> [i \in 1..24 |-> [a \in DOMAIN x.dims |-> IF RE(1..12, h) = 1 THEN RE({-400, -3, 17}, h)
                                                                   ELSE IF RE(1..4, h) = 1 THEN 4 * RE(0..(x.dims[a] - 1), h)
                                                                   ELSE RE(0..(4 * (x.dims[a] - 1)), h)]]]
RECURSIVE Incr(_)
Incr(g) == IF g = <<>> THEN <<>>
           ELSE LET p == Incr(SubSeq(g, 1, Len(g) - 1)) IN Append(p, (IF p = <<>> THEN 0 ELSE p[Len(p)]) + g[Len(g)])
GPoint(k, h) == [kind |-> "point", xs |-> Incr([i \in 1..k |-> RE(1..3, h)]), log |-> RE({TRUE, FALSE}, h),
                 v |-> [i \in 1..k |-> RE(-9..20, h)], method |-> RE(Methods, h), lo |-> RE(-6..2, h),
                 qs |-> [i \in 1..24 |-> IF RE(1..20, h) = 1 THEN -400 ELSE RE(-8..60, h)]]
GKnn(k, h) == [kind |-> "knn", refs |-> [i \in 1..8 |-> [a \in 1..k |-> RE(-4..4, h)]], v |-> [i \in 1..8 |-> RE(-9..20, h)],
               k |-> RE(1..4, h), qs |-> [i \in 1..24 |-> [a \in 1..k |-> RE(-5..5, h)]]]
Types == {"point", "log_point", "regbin", "log_regbin", "log_regbin", "regbin", "grid"}
Names == {"x", "y", "z", "cs1", "pdf", "cdf"}
Sign(h) == IF RE(1..6, h) = 1 THEN RE({-1, 0}, h) ELSE RE(1..2, h)
GLoad(k, each, h) ==
  LET t == RE(Types, h)
  IN [each |-> each, ct |-> IF each THEN [i \in 1..RE({k, k, k, k, k + 1}, h) |-> IF RE(1..8, h) = 1 THEN RE(Types, h) ELSE RE({"regbin", "log_regbin"}, h)]
                            ELSE <<t>>,
      names |-> [i \in 1..k |-> RE(Names, h)], lows |-> [i \in 1..k |-> Sign(h)], ups |-> [i \in 1..k |-> IF RE(1..12, h) = 1 THEN 0 ELSE 3],
      method |-> IF k > 1 /\ RE(1..6, h) = 1 THEN "SPLINE" ELSE RE(Methods, h), broken |-> RE(1..40, h) = 1]
GPdf(k, h) == [kind |-> "pdf", xs |-> Incr([i \in 1..k |-> RE(1..3, h)]), ps |-> [i \in 1..k |-> IF i \in {1, k} THEN RE(0..3, h) ELSE RE(1..9, h)],
               method |-> RE(Methods, h), den |-> RE({1, 7, 50}, h)]
GInit == s = <<>> /\ n = 0
Emit(x) == s' = x /\ PrintT("G|" \o ToJson(x))
GNext == /\ n < MAXLEN
         /\ n' = n + 1
         /\ \E p \in {RE(1..9, n)} : \E k \in {RE(1..3, n)} : \E m \in {RE(2..6, n)} :
            CASE p <= 5 -> \E x \in {GReg(k, n)} : \E y \in {GVals(x, n)} : Emit(y)
              [] p <= 8 -> \E y \in {GPoint(m, n)} : Emit(y)
              [] OTHER -> \E y \in {GKnn(k, n)} : Emit(y)
GSpec == GInit /\ [][GNext]_mvars
(* loading *)
LNext == /\ n < MAXLEN
         /\ n' = n + 1
         /\ \E p \in {RE(1..4, n)} : \E k \in {RE({1, 1, 2, 2, 3, 4}, n)} : \E m \in {RE(3..6, n)} :
            IF p = 1 THEN \E y \in {GPdf(m, n)} : Emit(y)
            ELSE \E e \in {RE({TRUE, FALSE}, n)} : \E y \in {[i \in 1..6 |-> GLoad(k, e, n)]} : Emit([kind |-> "load", ds |-> y])
LSpec == GInit /\ [][LNext]_mvars
=============================================================================
