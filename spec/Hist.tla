---------------------------------- MODULE Hist ----------------------------------
(***************************************************************************)
(* Histograms, bin schemes, normalisation and the Poisson likelihood.       *)
(*                                                                         *)
(* Points are sequences of integers (one or two coordinates).               *)
(* A binning is [kind, den, x, y]: x the edges of the first axis in units   *)
(* of 1/den[1]; y one row of edges per x slice ("irreg") or a single row    *)
(* ("mesh"), in units of 1/den[2]; y = <<>> in one dimension.               *)
(* Efficiencies are integers in units of 1/4; rates are integers.           *)
(***************************************************************************)
EXTENDS Num, FiniteSets

(* ------------------------------------------------------------- which bin *)
(* irregular bins: lower edge excluded, upper edge included                  *)
InIrreg(e, k, v) == e[k] < v /\ v <= e[k + 1]
(* regular grid: lower edge included; the last bin includes its upper edge   *)
InMesh(e, k, v) == e[k] <= v /\ (v < e[k + 1] \/ (k + 1 = Len(e) /\ v = e[k + 1]))
InBin(b, e, k, v) == IF b.kind = "mesh" THEN InMesh(e, k, v) ELSE InIrreg(e, k, v)

Dim(b) == IF b.y = <<>> THEN 1 ELSE 2
NX(b) == Len(b.x) - 1
NY(b) == IF Dim(b) = 1 THEN 1 ELSE Len(b.y[1]) - 1
NCells(b) == NX(b) * NY(b)
YRow(b, i) == IF b.kind = "mesh" THEN b.y[1] ELSE b.y[i]
InCell(b, c, p) ==
  LET i == (c - 1) \div NY(b) + 1
      j == ((c - 1) % NY(b)) + 1
  IN /\ InBin(b, b.x, i, p[1] * b.den[1])
     /\ Dim(b) = 2 => InBin(b, YRow(b, i), j, p[2] * b.den[2])

RECURSIVE CellSum(_, _, _, _, _)
CellSum(b, c, pts, w, i) ==
  IF i > Len(pts) THEN 0
  ELSE (IF InCell(b, c, pts[i]) THEN w[i] ELSE 0) + CellSum(b, c, pts, w, i + 1)
HistOf(b, pts, w) == [c \in 1..NCells(b) |-> CellSum(b, c, pts, w, 1)]
Ones(pts) == [i \in DOMAIN pts |-> 1]

(* ------------------------------------------- the same, by searching an edge *)
(* number of edges strictly below v (the insertion point)                    *)
Below(e, v) == Cardinality({k \in DOMAIN e : e[k] < v})
CellBySearch(b, p) ==
  LET i == Below(b.x, p[1] * b.den[1])
      row == IF Dim(b) = 1 THEN <<>> ELSE IF i \in 1..NX(b) THEN b.y[i] ELSE b.y[1]
      j == IF Dim(b) = 1 THEN 1 ELSE Below(row, p[2] * b.den[2])
  IN IF i \in 1..NX(b) /\ j \in 1..NY(b) THEN (i - 1) * NY(b) + j ELSE 0

(* --------------------------------------------------------- region of interest *)
Inside(clip, p) == \A a \in DOMAIN clip : clip[a][1] < p[a] /\ p[a] < clip[a][2]
Sel(clip, pts) == SelectSeq(pts, LAMBDA p : Inside(clip, p))

RECURSIVE SortInts(_)
SortInts(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                    IN <<m>> \o SortInts(S \ {m})
Column(pts, a) == [i \in DOMAIN pts |-> pts[i][a]]

(* ----------------------------------------------------------- bin schemes *)
(* n equal steps, in units of 1/n                                            *)
Linspace(lo, hi, n) == [k \in 1..(n + 1) |-> lo * n + (hi - lo) * (k - 1)]
Explicit(e) == e
(* n bins with equal numbers of the (distinct) values s, sorted, in units of *)
(* 1/n: the inner edges interpolate the order statistics                      *)
Quantile(s, n, k) ==
  LET q == k * (Len(s) - 1)
      i == q \div n + 1
      f == q % n
  IN IF f = 0 THEN s[i] * n ELSE s[i] * n + (s[i + 1] - s[i]) * f
EquiInner(s, n) == [k \in 1..(n - 1) |-> Quantile(s, n, k)]
EquiEdges(s, n, lo, hi) == <<lo * n>> \o EquiInner(s, n) \o <<hi * n>>
(* points of the k-th slice as seen by the partition of the second axis       *)
Slice(pts, e, k, den, n) ==
  SelectSeq(pts, LAMBDA p : /\ (k = 1 \/ e[k] <= p[1] * den)
                            /\ (k = n \/ p[1] * den < e[k + 1]))
EquiBins1(pts, n, clip) ==
  [kind |-> "irreg", den |-> <<n, 1>>,
   x |-> EquiEdges(SortInts(Range(Column(pts, 1))), n, clip[1][1], clip[1][2]), y |-> <<>>]
EquiBins2(pts, n, m, clip) ==
  LET ex == EquiEdges(SortInts(Range(Column(pts, 1))), n, clip[1][1], clip[1][2])
  IN [kind |-> "irreg", den |-> <<n, m>>, x |-> ex,
      y |-> [k \in 1..n |-> EquiEdges(SortInts(Range(Column(Slice(pts, ex, k, n, n), 2))), m,
                                      clip[2][1], clip[2][2])]]

(* n bins of integer data s (a sequence with repetitions): edges half way     *)
(* between integers, the first one as close as possible to a fraction 1/n of  *)
(* the data, the rest recursively.  Set of inner edge sequences (ties of      *)
(* rounding are left open), in units of 1/2.                                  *)
CountBelow(s, h) == Cardinality({i \in DOMAIN s : 2 * s[i] < h})
RECURSIVE EquiInt(_, _)
EquiInt(s, n) ==
  LET u == SortInts(Range(s))
      pot == [i \in 1..(Len(u) - 1) |-> 2 * u[i] + 1]
      N == Len(s)
      above(i) == CountBelow(s, pot[i]) * n > N
      d(i) == Abs(CountBelow(s, pot[i]) * n - N)
      last == Len(pot)
      stop(i) == above(i) \/ (i < last /\ above(i + 1) /\ d(i) < d(i + 1))
      maystop(i) == stop(i) \/ (i < last /\ above(i + 1) /\ d(i) = d(i + 1))
      first == CHOOSE i \in 1..last : (stop(i) \/ i = last) /\ \A j \in 1..(i - 1) : ~stop(j)
      cand == {first} \cup {i \in 1..(first - 1) : maystop(i)}
      rest(i) == SelectSeq(s, LAMBDA v : 2 * v > pot[i])
  IN IF last = 0 THEN {<<>>}
     ELSE IF n <= 2 THEN {<<pot[i]>> : i \in cand}
     ELSE UNION {{<<pot[i]>> \o t : t \in EquiInt(rest(i), n - 1)} : i \in cand}
Neg(s) == [i \in DOMAIN s |-> -s[Len(s) + 1 - i]]
EquiIntSet(s, n, left) == IF left THEN EquiInt(s, n) ELSE {Neg(t) : t \in EquiInt(Neg(s), n)}

(* all binnings the configuration allows for the selected data (usually one)   *)
BinningsOf(cfg, pts) ==
  CASE cfg.type = "equi" ->
         {IF cfg.dim = 1 THEN EquiBins1(pts, cfg.nb[1], cfg.clip)
          ELSE EquiBins2(pts, cfg.nb[1], cfg.nb[2], cfg.clip)}
    [] cfg.type = "equi-int" ->
         {[kind |-> "irreg", den |-> <<2, 1>>,
           x |-> <<2 * cfg.clip[1][1]>> \o t \o <<2 * cfg.clip[1][2]>>, y |-> <<>>] :
            t \in EquiIntSet(Column(pts, 1), cfg.nb[1], cfg.left)}
    [] cfg.type = "irreg" ->
         {[kind |-> "irreg", den |-> <<1, 1>>, x |-> cfg.ex, y |-> cfg.ey]}
    [] cfg.type = "mesh" ->
         {[kind |-> "mesh", den |-> <<IF cfg.nb[1] > 0 THEN cfg.nb[1] ELSE 1,
                                      IF cfg.nb[2] > 0 THEN cfg.nb[2] ELSE 1>>,
           x |-> IF cfg.nb[1] > 0 THEN Linspace(cfg.clip[1][1], cfg.clip[1][2], cfg.nb[1])
                 ELSE cfg.ex,
           y |-> IF cfg.dim = 1 THEN <<>>
                 ELSE IF cfg.nb[2] > 0
                      THEN <<Linspace(cfg.clip[2][1], cfg.clip[2][2], cfg.nb[2])>>
                      ELSE cfg.ey]}

(* ------------------------------------------------------------ fixed point *)
U6 == 1000000
(* a / b in units of 1e-6 (rounded down); b < 2^21, a/b < 2000               *)
Frac6(a, b) ==
  LET r == a % b
      h == r * 1000
      l == (h % b) * 1000
  IN (a \div b) * U6 + (h \div b) * 1000 + l \div b
(* natural logarithm of an integer, 1e-6                                      *)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE LnInt(_)
LnInt(a) ==
  IF a >= 65536 THEN 693147 + LnInt((a + 1) \div 2)
  ELSE LET k == IF a < 64 THEN 0 ELSE CHOOSE k \in 1..10 : a >= 32 * Pow2(k) /\ a < 64 * Pow2(k)
           p == Pow2(k)
           i == a \div p
           r == ((a - i * p) * U6) \div (i * p)
           r2 == (r * r) \div U6
       IN k * 693147 + (k * 2) \div 11 + Ln6(i) + r - r2 \div 2 + ((r2 * (r \div 10)) \div 100000) \div 3
LnU6 == 13815511

(* ------------------------------------------------------------ components *)
(* component: [norm, eps, fixed, boot]; its events: pts, eff                  *)
RECURSIVE SumW(_)
SumW(w) == IF w = <<>> THEN 0 ELSE Head(w) + SumW(Tail(w))
(* contents of the cells in units of 1/(4 B), B the number of events           *)
Raw(c, b, pts, eff) ==
  LET B == Len(pts)
      S == SumW(eff)
      h == HistOf(b, pts, eff)
  IN [k \in 1..NCells(b) |-> IF c.eps THEN Max2(h[k] * B, S) ELSE h[k] * B]
SumRaw(r) == SumFn(r, DOMAIN r)
(* empty: every efficiency is zero, only the floor is left                     *)
Hollow(c, eff) == c.eps /\ SumW(eff) = 0
(* the factor is not a finite number                                          *)
NoFactor(c, raw, eff) == c.norm = "on_pdf" /\ SumRaw(raw) = 0 /\ ~Hollow(c, eff)
Events(c, batch) == IF c.boot > 0 THEN c.boot ELSE batch
(* normalised content of cell k, 1e-6                                          *)
Cell6(c, b, pts, eff, batch, rate, k) ==
  LET raw == Raw(c, b, pts, eff)
      N == NCells(b)
      r == Abs(rate)
      v == IF Hollow(c, eff)
           THEN IF c.norm = "on_pdf" THEN Frac6(r, N) ELSE 0
           ELSE IF c.norm = "on_pdf" THEN Frac6(r * raw[k], SumRaw(raw))
           ELSE Frac6(r * raw[k], 4 * Len(pts) * Events(c, batch))
  IN IF rate < 0 THEN -v ELSE v

(* ------------------------------------------------------------ outermost edges *)
RECURSIVE MinSeq(_)
MinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Min2(s[1], MinSeq(Tail(s)))
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Max2(s[1], MaxSeq(Tail(s)))
Strictly(b, p) ==
  /\ MinSeq(b.x) < p[1] * b.den[1] /\ p[1] * b.den[1] < MaxSeq(b.x)
  /\ Dim(b) = 2 => LET all == Concat(b.y)
                   IN MinSeq(all) < p[2] * b.den[2] /\ p[2] * b.den[2] < MaxSeq(all)
(* indices of the events kept in the weighted data, in order                   *)
RECURSIVE KeepIdx(_, _, _)
KeepIdx(b, pts, i) == IF i > Len(pts) THEN <<>>
                      ELSE (IF Strictly(b, pts[i]) THEN <<i>> ELSE <<>>) \o KeepIdx(b, pts, i + 1)
Pick(s, idx) == [i \in DOMAIN idx |-> s[idx[i]]]
=============================================================================
