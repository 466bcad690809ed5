------------------------------ MODULE Trace_Hist ------------------------------
(* Judges recorded likelihoods: selection, binning, histograms, normalisation, *)
(* log-likelihood and weighted data.  header: cfg                              *)
EXTENDS TraceBase, Hist

HTInit(t) == [cfg |-> t.cfg, b |-> <<>>]

Pts(x) == Sel(x.cfg.clip, x.cfg.data \o x.cfg.extra)
(* observed edges in 1e-6 against edges in units of 1/den                      *)
Edge6(e, den) == (e \div den) * U6 + RoundDiv((e % den) * U6, den)
SameEdges(o, e, den) == Len(o) = Len(e) /\ \A i \in DOMAIN e : Near(o[i], Edge6(e[i], den), 60)
SameBins(e, b) ==
  /\ SameEdges(e.x, b.x, b.den[1])
  /\ Len(e.y) = Len(b.y)
  /\ \A i \in DOMAIN b.y : SameEdges(e.y[i], b.y[i], b.den[2])
Match(x, e) == {b \in BinningsOf(x.cfg, Pts(x)) : SameBins(e, b)}
(* the partition into bins of equal content needs more distinct values than bins *)
Enough(x) ==
  CASE x.cfg.type = "equi-int" -> Cardinality(Range(Column(Pts(x), 1))) > x.cfg.nb[1]
    [] x.cfg.type = "equi" -> IF x.cfg.dim = 1 THEN Len(Pts(x)) > x.cfg.nb[1]
                              ELSE Len(Pts(x)) >= x.cfg.nb[1] * (x.cfg.nb[2] + 2) + 2
    [] OTHER -> TRUE

(* ---------------------------------------------------------------- values *)
Tol(v) == 8 + Abs(v) \div 100000
NearV(o, v) == o.k = "num" /\ Near(o.v, v, Tol(v))
BadRate(r) == r >= 90000
CPts(x, e, i) == IF x.cfg.comps[i].fixed THEN x.cfg.fixedpts ELSE e.comps[i].pts
CEff(x, e, i) == IF x.cfg.comps[i].fixed THEN [j \in DOMAIN x.cfg.fixedpts |-> 4] ELSE e.comps[i].eff
CBatch(x, e, i) == IF x.cfg.comps[i].fixed THEN Len(x.cfg.fixedpts) ELSE e.batch
IsBad(x) == \E i \in DOMAIN x.cfg.comps : x.cfg.comps[i].norm = "bad"
NotFinite(x, e, i) == BadRate(e.comps[i].rate)
                      \/ NoFactor(x.cfg.comps[i], Raw(x.cfg.comps[i], x.b, CPts(x, e, i), CEff(x, e, i)),
                                  CEff(x, e, i))
CellV(x, e, i, k) == Cell6(x.cfg.comps[i], x.b, CPts(x, e, i), CEff(x, e, i), CBatch(x, e, i),
                           e.comps[i].rate, k)
(* content so small that only its sign matters                                 *)
Tiny(x, e, i) == LET c == x.cfg.comps[i]
                 IN c.norm = "on_sim" /\ Hollow(c, CEff(x, e, i)) /\ e.comps[i].rate # 0
CellSums(x, e) == [k \in 1..NCells(x.b) |-> SumSeq([i \in DOMAIN x.cfg.comps |-> CellV(x, e, i, k)])]
Signed(e) == \E i \in DOMAIN e.comps : e.comps[i].rate < 0

Like(n, m) == SumFn([k \in DOMAIN m |-> n[k] * (LnInt(m[k]) - LnU6) - m[k]], DOMAIN m)
LikeTol(n, m) == 600 + SumFn([k \in DOMAIN m |-> n[k] * (4000000 \div m[k] + 80) + Tol(m[k])], DOMAIN m)

HistJudge(x, e) ==
  LET comps == x.cfg.comps
      nf == {i \in DOMAIN comps : NotFinite(x, e, i)}
      m == CellSums(x, e)
      n == HistOf(x.b, Pts(x), Ones(Pts(x)))
      cells == 1..NCells(x.b)
      zero == {k \in cells : m[k] < 20 /\ (\E i \in DOMAIN comps : Tiny(x, e, i) \/ Signed(e))}
      nonpos == {k \in cells : m[k] <= 0 /\ k \notin zero}
      neg == {k \in cells : m[k] < -20}
  IN Clause(Len(e.hists) = Len(comps), "one-histogram-per-component", Len(comps))
     \o (IF Len(e.hists) # Len(comps) THEN <<>> ELSE
        Clause(\A i \in DOMAIN comps : Len(e.hists[i]) = NCells(x.b), "histogram-shape", NCells(x.b))
        \o (IF \E i \in DOMAIN comps : Len(e.hists[i]) # NCells(x.b) THEN <<>> ELSE
           Clause(\A i \in (DOMAIN comps) \ nf : \A k \in cells : NearV(e.hists[i][k], CellV(x, e, i, k)),
                  "normalised-histogram-of-component",
                  [i \in (DOMAIN comps) \ nf |-> [k \in cells |-> CellV(x, e, i, k)]])))
     \o (IF nf # {}
         THEN Clause(e.llh.k = "-inf", "not-finite-model-gives-minus-infinity", nf)
         ELSE Clause(NearV(e.total, SumFn(m, cells)) \/ (Signed(e) /\ Near(e.total.v, SumFn(m, cells), 500)),
                     "number-of-expected-events", SumFn(m, cells))
              \o (IF neg # {} \/ nonpos # {}
                  THEN Clause(e.llh.k = "-inf", "empty-or-negative-bin-gives-minus-infinity", m)
                  ELSE IF zero # {}
                  THEN Clause(e.llh.k \in {"num", "-inf"}, "log-likelihood-is-never-nan", m)
                  ELSE Clause(e.llh.k = "num" /\ Near(e.llh.v, Like(n, m), LikeTol(n, m)),
                              "poisson-log-likelihood", <<Like(n, m), LikeTol(n, m), m, n>>)))
     \o Clause(e.kout = "same" <=> \A i \in DOMAIN comps : comps[i].fixed,
               "only-simulated-components-use-the-key", "")

(* ---------------------------------------------------------------- weighted data *)
(* weight of event j in 1e-6: eff/4 * factor of the kept events                 *)
WRows(x, e, i) ==
  LET c == x.cfg.comps[i]
      pts == CPts(x, e, i)
      eff == CEff(x, e, i)
      keep == KeepIdx(x.b, pts, 1)
      kp == IF c.fixed THEN pts ELSE Pick(pts, keep)
      ke == IF c.fixed THEN eff ELSE Pick(eff, keep)
      raw == Raw(c, x.b, kp, ke)
      r == e.comps[i].rate
      w(j) == LET f == eff[j]
                  v == IF f = 0 THEN 0
                       ELSE IF c.norm = "on_pdf" THEN Frac6(f * Abs(r) * Len(kp), SumRaw(raw))
                       ELSE Frac6(f * Abs(r), 4 * Events(c, CBatch(x, e, i)))
              IN IF r < 0 THEN -v ELSE v
      undef == BadRate(r) \/ NoFactor(c, raw, ke)
  IN [n \in DOMAIN keep |-> [p |-> pts[keep[n]], w |-> IF undef THEN 0 ELSE w(keep[n]), u |-> undef]]
WJudge(x, e) ==
  LET rows == Concat([i \in DOMAIN x.cfg.comps |-> WRows(x, e, i)])
  IN Clause(Len(e.w) = Len(rows) /\ e.pts = [n \in DOMAIN rows |-> rows[n].p],
            "events-strictly-inside-the-bins-in-order", [n \in DOMAIN rows |-> rows[n].p])
     \o (IF Len(e.w) # Len(rows) THEN <<>> ELSE
         Clause(\A n \in DOMAIN rows : rows[n].u \/ NearV(e.w[n], rows[n].w),
                "weight-is-efficiency-times-normalisation", [n \in DOMAIN rows |-> rows[n].w]))

HTJudge(x, e) ==
  CASE e.op = "refuse" -> Clause(e.err # "", "ill-formed-binning-must-be-refused", e.case)
    [] e.op = "build" ->
         IF ~Enough(x) THEN <<>>
         ELSE Clause(e.err = "", "likelihood-must-build", "")
              \o (IF e.err # "" THEN <<>> ELSE
                  Clause(e.sel = Pts(x), "data-strictly-inside-the-region-of-interest", Pts(x))
                  \o Clause(Match(x, e) # {}, "bin-edges", BinningsOf(x.cfg, Pts(x)))
                  \o (IF Match(x, e) = {} THEN <<>> ELSE
                      Clause(\E b \in Match(x, e) : e.hist = HistOf(b, Pts(x), Ones(Pts(x))),
                             "histogram-of-the-data",
                             {HistOf(b, Pts(x), Ones(Pts(x))) : b \in Match(x, e)})))
    [] e.op = "raw" ->
         (* the binning functions themselves, weights in 1/4                       *)
         Clause(e.err = "", "histogram-must-evaluate", "")
         \o (IF e.err # "" THEN <<>> ELSE
             Clause(e.h = HistOf(e.b, e.pts, e.w), "histogram", HistOf(e.b, e.pts, e.w)))
    [] e.op \in {"hist", "weighted"} ->
         IF x.b = <<>> THEN <<>>
         ELSE IF IsBad(x) THEN Clause(e.err # "", "unsupported-normalisation-must-be-refused", "")
         ELSE Clause(e.err = "", "evaluation-must-not-fail", "")
              \o (IF e.err # "" THEN <<>>
                  ELSE IF e.op = "hist" THEN HistJudge(x, e) ELSE WJudge(x, e))
    [] e.op = "noeff" ->
         (* a stand-alone component told to ignore the efficiency                  *)
         IF x.b = <<>> \/ x.cfg.comps[e.i].norm = "bad" THEN <<>>
         ELSE LET c == x.cfg.comps[e.i]
                  eff == [j \in DOMAIN e.pts |-> 4]
                  w == [k \in 1..NCells(x.b) |-> Cell6(c, x.b, e.pts, eff, Len(e.pts), e.rate, k)]
              IN Clause(e.err = "", "evaluation-must-not-fail", "")
                 \o (IF e.err # "" \/ BadRate(e.rate) \/ NoFactor(c, Raw(c, x.b, e.pts, eff), eff) THEN <<>>
                     ELSE Clause(Len(e.h) = NCells(x.b) /\ \A k \in DOMAIN w : NearV(e.h[k], w[k]),
                                 "histogram-without-efficiency", w))
    [] OTHER -> Clause(FALSE, "unknown-event", e.op)
HTApply(x, e) ==
  IF e.op = "build" /\ Enough(x)
  THEN [x EXCEPT !.b = CHOOSE b \in Match(x, e) : e.hist = HistOf(b, Pts(x), Ones(Pts(x)))]
  ELSE x
=============================================================================
