-------------------------------- MODULE Interp --------------------------------
(***************************************************************************)
(* Maps: values on nodes, and what a map gives between and beyond nodes.     *)
(* regular map: dims[a] = number of nodes of axis a, size[a] = length of a    *)
(*   cell (in a logarithmic axis, of the exponent), v = values, row major.    *)
(*   a position is given in quarters of cells: 4*i is node i+1.               *)
(* point map: xs[i] = coordinate of node i (exponent, in a logarithmic map)   *)
(*   in units of which a position is a quarter.                               *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))
RECURSIVE Flat1(_, _)
(* row-major position of the index tuple ix (from 0)                          *)
Flat1(dims, ix) == IF dims = <<>> THEN 1
                   ELSE Head(ix) * Product(Tail(dims)) + Flat1(Tail(dims), Tail(ix))
At(m, ix) == m.v[Flat1(m.dims, ix)]
Axes(m) == DOMAIN m.dims
Clamp(q, n) == Max2(0, Min2(q, 4 * (n - 1)))
Clamped(m, q) == [a \in Axes(m) |-> Clamp(q[a], m.dims[a])]
Corners(m) == [Axes(m) -> {0, 1}]
Cell(m, c) == [a \in Axes(m) |-> Min2(c[a] \div 4, m.dims[a] - 2)]
Corner(m, c, k) == At(m, [a \in Axes(m) |-> Cell(m, c)[a] + k[a]])
(* multilinear interpolation times 4^(number of axes)                          *)
Lerp(m, q) ==
  LET c == Clamped(m, q)
      w(k) == Product([a \in Axes(m) |-> LET t == c[a] - 4 * Cell(m, c)[a] IN IF k[a] = 1 THEN t ELSE 4 - t])
  IN SumFn([k \in Corners(m) |-> w(k) * Corner(m, c, k)], Corners(m))
(* values of the nearest nodes (several in a tie)                               *)
Nearest(m, q) ==
  LET c == Clamped(m, q)
      (* one node, or the two nodes at the same distance *)
      near(a, k) == IF k = 0 THEN (c[a] + 2) \div 4 ELSE (c[a] + 1) \div 4
  IN {At(m, [a \in Axes(m) |-> near(a, k[a])]) : k \in Corners(m)}
RECURSIVE ISqrt(_, _, _)
ISqrt(n, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET mid == (lo + hi) \div 2
                         IN IF mid * mid <= n THEN ISqrt(n, mid, hi) ELSE ISqrt(n, lo, mid)
(* inverse of the distance whose square is d2, times 44721                       *)
Inverse(d2) == ISqrt(2000000000 \div d2, 0, 44722)
Inside(m, q) == \A a \in Axes(m) : q[a] >= 0 /\ q[a] <= 4 * (m.dims[a] - 1)
OnNode(m, q) == Inside(m, q) /\ \A a \in Axes(m) : q[a] % 4 = 0
Strict(m, q) == Inside(m, q) /\ \A a \in Axes(m) : q[a] % 4 # 0
NodeValue(m, q) == At(m, [a \in Axes(m) |-> q[a] \div 4])
Dist2(m, c, k) == SumSeq([a \in Axes(m) |-> LET d == m.size[a] * (c[a] - 4 * (Cell(m, c)[a] + k[a])) IN d * d])
(* average of the corners of the cell weighted by the inverse distance: <<sum, weights>> *)
Idw(m, q) ==
  LET w == [k \in Corners(m) |-> Inverse(Dist2(m, q, k))]
  IN <<SumFn([k \in Corners(m) |-> w[k] * Corner(m, q, k)], Corners(m)), SumFn(w, Corners(m))>>
Lowest(vs) == CHOOSE x \in Range(vs) : \A y \in Range(vs) : x <= y
Highest(vs) == CHOOSE x \in Range(vs) : \A y \in Range(vs) : x >= y
(* got (in hundredths) is what method gives at q                                   *)
Allowed(m, method, q, got) ==
  CASE method = "NN" /\ Len(m.dims) > 1 -> \E v \in Nearest(m, q) : Near(got, 100 * v, 1)
    [] method = "LERP" \/ Len(m.dims) = 1 ->
         LET f == 4 ^ Len(m.dims) IN Near(f * got, 100 * Lerp(m, q), f)
    [] OnNode(m, q) -> Near(got, 100 * NodeValue(m, q), 1)
    [] Strict(m, q) -> LET r == Idw(m, q) IN Abs(got * r[2] - 100 * r[1]) <= 3 * r[2]
    [] OTHER -> got >= 100 * Lowest(m.v) - 1 /\ got <= 100 * Highest(m.v) + 1

(* ------------------------------------------------------------ point maps          *)
PLerp(xs, v, q) ==          (* <<numerator, denominator>> *)
  IF q <= 4 * xs[1] THEN <<v[1], 1>>
  ELSE IF q >= 4 * xs[Len(xs)] THEN <<v[Len(v)], 1>>
  ELSE LET i == CHOOSE j \in 1..(Len(xs) - 1) : 4 * xs[j] <= q /\ q < 4 * xs[j + 1]
           d == 4 * (xs[i + 1] - xs[i])
       IN <<v[i] * d + (v[i + 1] - v[i]) * (q - 4 * xs[i]), d>>
PNear(xs, v, q) == {v[i] : i \in {j \in DOMAIN xs : \A k \in DOMAIN xs : Abs(q - 4 * xs[j]) <= Abs(q - 4 * xs[k])}}
PAllowed(xs, v, method, q, got) ==
  IF method = "NN" THEN \E y \in PNear(xs, v, q) : Near(got, 100 * y, 1)
  ELSE LET r == PLerp(xs, v, q) IN Near(got * r[2], 100 * r[1], r[2])

(* ------------------------------------------- k nearest among scattered points       *)
D2(p, q) == SumSeq([a \in DOMAIN p |-> (p[a] - q[a]) * (p[a] - q[a])])
Nearer(refs, q, i) == {j \in DOMAIN refs : D2(refs[j], q) < D2(refs[i], q)}
Knn(refs, q, k) == {i \in DOMAIN refs : Cardinality(Nearer(refs, q, i)) < k}
KnnAllowed(refs, v, q, k, got) ==
  LET S == Knn(refs, q, k)
      on == {i \in DOMAIN refs : refs[i] = q}
      w == [i \in S |-> Inverse(D2(refs[i], q))]
  IN IF Cardinality(on) = 1 THEN \E i \in on : Near(got, 100 * v[i], 1)
     ELSE IF on # {} \/ Cardinality(S) # k THEN got >= 100 * Lowest(v) - 1 /\ got <= 100 * Highest(v) + 1
     ELSE Abs(got * SumFn(w, S) - 100 * SumFn([i \in S |-> w[i] * v[i]], S)) <= 3 * SumFn(w, S)

(* ------------------------------------------------------------------- loading        *)
(* d: ct (sequence of coordinate types; one, not "each", is a plain string), names,   *)
(*    lows (per axis, or all coordinates of a point map), ups, method, broken          *)
RegTypes == {"regbin", "log_regbin"}
LogOf(d) == IF d.each THEN [i \in DOMAIN d.lows |-> d.ct[i] = "log_regbin"] ELSE [i \in DOMAIN d.lows |-> d.ct[1] = "log_regbin"]
LoadErr(d) ==
  LET bad == IF d.broken THEN TRUE
             ELSE IF d.each /\ (\E i \in DOMAIN d.ct : d.ct[i] \notin RegTypes) THEN TRUE
             ELSE IF d.each \/ d.ct[1] \in RegTypes THEN
               IF d.each /\ Len(d.ct) # Len(d.lows) THEN TRUE
               ELSE \/ \E i \in DOMAIN d.lows : LogOf(d)[i] /\ (d.names[i] \in {"pdf", "cdf"} \/ d.lows[i] <= 0 \/ d.ups[i] <= 0)
                    \/ Len(d.lows) > 3
                    \/ Len(d.lows) > 1 /\ d.method \notin {"IDW", "NN", "LERP"}
             ELSE IF d.ct[1] \in {"point", "log_point"} THEN
               \/ d.ct[1] = "log_point" /\ (d.names[1] \in {"pdf", "cdf"} \/ \E i \in DOMAIN d.lows : d.lows[i] <= 0)
               \/ d.method \notin {"IDW", "NN", "LERP"}
             ELSE TRUE
  IN IF bad THEN "ValueError" ELSE ""

(* a table of a probability density: position of a probability                         *)
Mass(xs, ps) == [i \in 1..(Len(xs) - 1) |-> (xs[i + 1] - xs[i]) * (ps[i] + ps[i + 1])]
RECURSIVE Cum(_, _)
Cum(m, i) == IF i = 0 THEN 0 ELSE m[i] + Cum(m, i - 1)
(* u of N: the interval of the exact quantile, and which positions are close enough     *)
Quantile(xs, ps, u, N) ==
  LET m == Mass(xs, ps)
      tot == Cum(m, Len(m))
  IN {j \in DOMAIN m : u * tot >= N * Cum(m, j - 1) /\ u * tot <= N * Cum(m, j)}
QAllowed(xs, ps, u, N, got) ==
  \E j \in Quantile(xs, ps, u, N) : got >= 100 * xs[Max2(j - 1, 1)] - 1 /\ got <= 100 * xs[Min2(j + 1, Len(xs))] + 1
=============================================================================
