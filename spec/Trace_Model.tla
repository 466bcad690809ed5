----------------------------- MODULE Trace_Model -----------------------------
(* Judges recorded models: needed parameters, sanity, aliases, likelihood     *)
(* values, weighted data and the posterior.                                   *)
(* header: llhs, given (names configured by the user), cfg (their priors)     *)
EXTENDS TraceBase, Model

MTInit(t) == [ls |-> t.llhs, given |-> Range(t.given), cfg |-> t.cfg, tab |-> <<>>]

ProvCfg(x) == [p \in Provided(x.ls, x.given) |-> x.cfg[SourceOf(x.ls, p)]]

(* expected weighted data of a likelihood: one row per event                  *)
Rep(v, n) == [i \in 1..n |-> v]
RECURSIVE Rows(_, _, _, _, _)
Rows(l, tab, b, i, f) ==
  IF i > Len(l.comps) THEN <<>>
  ELSE LET c == l.comps[i]
           rate == tab[RateOf(c)]
       IN (IF c.fixed
           THEN [j \in 1..c.m |-> CASE f = 1 -> j [] f = 2 -> j + 1 [] f = 3 -> RoundDiv(rate * 10000, c.m)]
           ELSE LET o == CompOut(c, tab)
                IN Rep(CASE f = 1 -> o.d1 [] f = 2 -> o.d2 [] f = 3 -> RoundDiv(o.w * 10000, b), b))
          \o Rows(l, tab, b, i + 1, f)
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], tol)

(* observed values: k is "num", "-inf" or "other"; v in units of 1e-6           *)
IsInf(o) == o.k = "-inf"
IsNear(o, v, tol) == o.k = "num" /\ Near(o.v, v, tol)
LikeOk(l, tab, o) == IF Finite(l, tab) THEN IsNear(o, LogLike(l, tab), 200) ELSE IsInf(o)

(* ---------------------------------------------------------------- posterior *)
PostTab(x, e) == [p \in DOMAIN ProvCfg(x) |->
                    IF p \in DOMAIN e.upd THEN e.upd[p]
                    ELSE IF p \in DOMAIN x.tab THEN x.tab[p] ELSE ProvCfg(x)[p].a]
(* the calls of one round: one per likelihood in order, key passed on          *)
RoundOk(x, e, r, tab) ==
  LET n == Len(x.ls)
      call(i) == e.calls[(r - 1) * n + i]
  IN \A i \in 1..n :
       /\ call(i).llh = x.ls[i].name
       /\ call(i).batch = e.batch
       /\ call(i).tab = tab
       /\ i > 1 => call(i).kin = call(i - 1).kout
PostJudge(x, e) ==
  LET cfg == ProvCfg(x)
      tab == PostTab(x, e)
      n == Len(x.ls)
      unk == DOMAIN e.upd \ DOMAIN cfg
      miss == UNION {Missing(x.ls[i], tab) : i \in DOMAIN x.ls}
      out == Bad(cfg, tab)
  IN IF unk # {} THEN Clause(e.err = "AssertionError", "unknown-parameter-must-be-refused", unk)
     ELSE IF out # {}
     THEN Clause(e.err = "", "out-of-range-is-not-an-error", out)
          \o (IF e.err # "" THEN <<>>
              ELSE Clause(IsInf(e.val) /\ IsInf(e.prior), "out-of-range-posterior-is-minus-infinity", out)
                   \o Clause(e.calls = <<>>, "out-of-range-must-not-simulate", out))
     ELSE IF miss # {} /\ ~e.stub THEN Clause(e.err = "KeyError", "missing-parameter-must-raise-KeyError", miss)
     ELSE Clause(e.err = "", "posterior-must-evaluate", tab)
          \o (IF e.err # "" THEN <<>>
              ELSE Clause(Len(e.calls) = n * e.rep, "every-likelihood-once-per-repetition", n * e.rep)
                   \o (IF Len(e.calls) # n * e.rep THEN <<>> ELSE
                       Clause(\A r \in 1..e.rep : RoundOk(x, e, r, tab),
                              "likelihood-calls", tab)
                       \o Clause(\A q, r \in 1..e.rep : q # r =>
                                    e.calls[(q - 1) * n + 1].kin # e.calls[(r - 1) * n + 1].kin,
                                 "repetitions-use-fresh-keys", "")
                       \o Clause(IsNear(e.prior, LogPrior(cfg, tab), LPTol(cfg, tab)),
                                 "posterior-reports-prior", LogPrior(cfg, tab))
                       \o (IF e.stub
                           THEN LET s == SumSeq([i \in DOMAIN e.calls |-> e.calls[i].val.v])
                                IN Clause(IsNear(e.val, RoundDiv(s, e.rep) + e.prior.v, 40),
                                          "posterior-is-prior-plus-mean-of-likelihood-sums",
                                          RoundDiv(s, e.rep) + e.prior.v)
                           ELSE IF AllFinite(x.ls, tab)
                           THEN Clause(IsNear(e.val, SumLike(x.ls, tab, 1) + e.prior.v, 600),
                                       "posterior-is-prior-plus-likelihoods",
                                       SumLike(x.ls, tab, 1) + e.prior.v)
                           ELSE Clause(IsInf(e.val), "posterior-of-empty-model-is-minus-infinity", "-inf"))))

MTJudge(x, e) ==
  CASE e.op = "needs" ->
         Clause(e.err = "", "context-must-build", "")
         \o (IF e.err # "" THEN <<>> ELSE
            Clause(\A i \in DOMAIN x.ls : \A j \in DOMAIN x.ls[i].comps :
                      Range(e.comps[i][j]) = CompNeeds(x.ls[i].comps[j]),
                   "parameters-needed-by-component", [i \in DOMAIN x.ls |->
                      [j \in DOMAIN x.ls[i].comps |-> CompNeeds(x.ls[i].comps[j])]])
         \o Clause(\A i \in DOMAIN x.ls : Range(e.llhs[i]) = LlhNeeds(x.ls[i]),
                   "parameters-needed-by-likelihood", [i \in DOMAIN x.ls |-> LlhNeeds(x.ls[i])])
         \o Clause(Range(e.ctx) = CtxNeeds(x.ls), "parameters-needed-by-context", CtxNeeds(x.ls))
         \o Clause(Range(e.provided) = Provided(x.ls, x.given), "parameters-provided",
                   Provided(x.ls, x.given)))
    [] e.op = "prior-config" ->
         Clause(e.src = [p \in Provided(x.ls, x.given) |-> SourceOf(x.ls, p)],
                "copied-parameter-has-configuration-of-its-source",
                [p \in Provided(x.ls, x.given) |-> SourceOf(x.ls, p)])
    [] e.op = "sanity" ->
         Clause(e.err = IF Sane(x.ls, x.given) THEN "" ELSE "RuntimeError",
                "sanity-check", Provided(x.ls, x.given) \ CtxNeeds(x.ls))
    [] e.op \in {"loglike", "weighted"} ->
         LET l == x.ls[e.i]
             miss == Missing(l, e.tab)
             tab == Inner(l, e.tab)
         IN Clause(e.kept, "parameters-of-caller-unchanged", "")
            \o (IF miss # {} THEN Clause(e.err = "KeyError", "missing-parameter-must-raise-KeyError", miss)
                ELSE Clause(e.err = "", "likelihood-must-evaluate", "")
                \o (IF e.err # "" THEN <<>>
                    ELSE IF e.op = "loglike"
                    THEN Clause(LikeOk(l, e.tab, e.val), "log-likelihood-of-renamed-parameters",
                                IF Finite(l, e.tab) THEN LogLike(l, e.tab) ELSE 0)
                    ELSE Clause(NearSeq(e.d1, Rows(l, tab, e.batch, 1, 1), 0)
                                /\ NearSeq(e.d2, Rows(l, tab, e.batch, 1, 2), 0),
                                "events-of-renamed-parameters", <<Rows(l, tab, e.batch, 1, 1), Rows(l, tab, e.batch, 1, 2)>>)
                         \o Clause(NearSeq(e.w, Rows(l, tab, e.batch, 1, 3), 2),
                                   "weights-of-renamed-parameters", Rows(l, tab, e.batch, 1, 3))))
    [] e.op = "posterior" -> PostJudge(x, e)
    [] e.op = "fact" -> Clause(e.holds, e.name, TRUE)
    [] OTHER -> <<<<"unknown-event", e.op>>>>

MTApply(x, e) == IF e.op = "posterior" /\ e.err # "AssertionError" THEN [x EXCEPT !.tab = PostTab(x, e)]
                 ELSE x
=============================================================================
