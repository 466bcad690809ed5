--------------------------------- MODULE Param ---------------------------------
(***************************************************************************)
(* The parameter manager: a table of named parameters with priors.         *)
(* Parameter values are integers in units of 1e-6 (U) or the strings "nan" *)
(* and "inf"; prior arguments are plain integers.                          *)
(* cfg : name -> [t (prior type), a, b (arguments), lo, hi (allowed range), *)
(*                im, is (initial guess mean and std)]                      *)
(*   fixed a = value;  norm a = mean, b = std;  uniform a = lower, b = upper*)
(*   twohalfnorm a = mu, p = sigma_pos, n = sigma_neg;  free               *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

U == 1000000
Names(cfg) == DOMAIN cfg
Fit(cfg) == {n \in Names(cfg) : cfg[n].t # "fixed"}
Clip(x, lo, hi) == Min2(Max2(x, lo), hi)

(* The values a sampled parameter may take: an interval in units of 1e-6.   *)
(* A zero spread makes it a point.                                          *)
PriorBox(c) ==
  CASE c.t = "fixed" -> <<c.a * U, c.a * U>>
    [] c.t = "norm" -> IF c.b = 0 THEN <<Clip(c.a, c.lo, c.hi) * U, Clip(c.a, c.lo, c.hi) * U>>
                       ELSE <<c.lo * U, c.hi * U>>
    [] c.t = "uniform" -> <<Clip(c.a, c.lo, c.hi) * U, Clip(c.b, c.lo, c.hi) * U>>
    [] c.t = "free" -> IF c.is = 0 THEN <<Clip(c.im, c.lo, c.hi) * U, Clip(c.im, c.lo, c.hi) * U>>
                       ELSE <<c.lo * U, c.hi * U>>
    [] c.t = "twohalfnorm" -> <<c.lo * U, c.hi * U>>
InitBox(c) ==
  CASE c.t = "fixed" -> <<c.a * U, c.a * U>>
    [] OTHER -> IF c.is = 0 THEN <<Clip(c.im, c.lo, c.hi) * U, Clip(c.im, c.lo, c.hi) * U>>
                ELSE <<c.lo * U, c.hi * U>>
(* 1e-6 units are rounded values: allow half a unit *)
InBox(v, box) == v >= box[1] - 1 /\ v <= box[2] + 1

(* ------------------------------------------------------------------ log prior *)
(* -(d^2)/(2 s^2) in units of 1e-6, d and s integers *)
NormLP(d, s) == -RoundDiv(d * d * 500000, s * s)
(* two half normals whose 16/84 percentiles are the errors <<pos, neg>>:     *)
(* 1e6/(2 sigma_pos^2), 1e6/(2 sigma_neg^2) and 1e6*log of the norm          *)
THN(p, n) ==
  CASE p = 1 /\ n = 1 -> <<500000, 500000, -918939>>
    [] p = 2 /\ n = 2 -> <<125000, 125000, -1612086>>
    [] p = 5 /\ n = 5 -> <<20000, 20000, -2528376>>
    [] p = 2 /\ n = 1 -> <<156184, 356595, -1315484>>
    [] p = 1 /\ n = 2 -> <<356595, 156184, -1315484>>
    [] p = 3 /\ n = 2 -> <<64036, 104259, -1832066>>
    [] p = 2 /\ n = 3 -> <<104259, 64036, -1832066>>
    [] p = 3 /\ n = 1 -> <<75958, 273381, -1591382>>
    [] p = 1 /\ n = 3 -> <<273381, 75958, -1591382>>
THNs == {<<1, 1>>, <<2, 2>>, <<5, 5>>, <<2, 1>>, <<1, 2>>, <<3, 2>>, <<2, 3>>, <<3, 1>>, <<1, 3>>}
THNLP(d, p, n) == LET t == THN(p, n)
                  IN t[3] - d * d * (IF d < 0 THEN t[2] ELSE t[1])
LogPrior1(c, x) ==
  CASE c.t = "norm" -> NormLP(x - c.a, c.b)
    [] c.t = "twohalfnorm" -> THNLP(x - c.a, c.p, c.n)
    [] OTHER -> 0
(* vals: name -> integer (plain units) or "nan" *)
Bad(cfg, vals) == {n \in Fit(cfg) : vals[n] < cfg[n].lo \/ vals[n] > cfg[n].hi}
LogPrior(cfg, vals) == SumFn([n \in Fit(cfg) |-> LogPrior1(cfg[n], vals[n])], Fit(cfg))
LPTol(cfg, vals) == 3 + SumFn([n \in Fit(cfg) |-> IF cfg[n].t = "twohalfnorm"
                                 THEN (vals[n] - cfg[n].a) * (vals[n] - cfg[n].a) ELSE 1], Fit(cfg))

(* ------------------------------------------------------------------ the table *)
(* set: all or nothing.  kind "one" takes one name and one number, "many" a   *)
(* list of names and a list of values, "map" a record                         *)
Known(cfg, ks) == \A i \in DOMAIN ks : ks[i] \in Names(cfg)
SetOk(cfg, o) == /\ Known(cfg, o.keys)
                 /\ o.kind = "many" => Len(o.keys) = Len(o.vals)
                 /\ o.kind = "one" => o.num
RECURSIVE Assign(_, _, _, _)
Assign(tab, ks, vs, i) == IF i > Len(ks) THEN tab
                          ELSE Assign([tab EXCEPT ![ks[i]] = vs[i]], ks, vs, i + 1)
DoSet(cfg, tab, o) == IF SetOk(cfg, o) THEN Assign(tab, o.keys, o.vals, 1) ELSE tab

(* ------------------------------------------------------------------ sampling *)
(* count k of n draws with probability pc percent: within six sigma           *)
CountOk(k, n, pc) ==
  LET d == k * 100 - n * pc IN d * d <= 36 * n * pc * (100 - pc) + n * n
Count(vs, T(_)) == Cardinality({i \in DOMAIN vs : T(vs[i])})
THNNeg(p, n) == CASE p = n -> 50
    [] p = 2 /\ n = 1 -> 40 [] p = 1 /\ n = 2 -> 60 [] p = 3 /\ n = 2 -> 44
    [] p = 2 /\ n = 3 -> 56 [] p = 3 /\ n = 1 -> 34 [] p = 1 /\ n = 3 -> 66
(* draws vs (1e-6 units) of a parameter whose allowed range is wide           *)
NormStat(vs, m, s) ==
  /\ CountOk(Count(vs, LAMBDA x : x < m * U), Len(vs), 50)
  /\ CountOk(Count(vs, LAMBDA x : Abs(x - m * U) < s * U), Len(vs), 68)
StatOk(c, how, vs) ==
  IF how = "init" \/ c.t = "free" THEN NormStat(vs, c.im, c.is)
  ELSE CASE c.t = "norm" -> NormStat(vs, c.a, c.b)
         [] c.t = "uniform" ->
              /\ \A i \in DOMAIN vs : InBox(vs[i], <<c.a * U, c.b * U>>)
              /\ CountOk(Count(vs, LAMBDA x : 4 * (x \div 1000) < (3 * c.a + c.b) * 1000), Len(vs), 25)
              /\ CountOk(Count(vs, LAMBDA x : 4 * (x \div 1000) > (c.a + 3 * c.b) * 1000), Len(vs), 25)
         [] c.t = "twohalfnorm" ->
              /\ CountOk(Count(vs, LAMBDA x : x < c.a * U), Len(vs), THNNeg(c.p, c.n))
              /\ CountOk(Count(vs, LAMBDA x : x > (c.a + c.p) * U), Len(vs), 16)
              /\ CountOk(Count(vs, LAMBDA x : x < (c.a - c.n) * U), Len(vs), 16)
(* draws of a parameter one of whose range edges is its median: half of them   *)
(* are clipped to the edge                                                     *)
EdgeStatOk(c, vs, edge) == CountOk(Count(vs, LAMBDA x : x = edge * U), Len(vs), 50)
=============================================================================
