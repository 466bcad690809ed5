----------------------------- MODULE Trace_Param -----------------------------
(* Judges recorded sessions of the parameter manager.  Every event carries    *)
(* the whole table after the operation (`all`, units of 1e-6).                *)
EXTENDS TraceBase, Param

PTInit(t) == [cfg |-> t.cfg, order |-> t.order, tab |-> t.all0, seeds |-> <<>>]

Mul(vs) == [i \in DOMAIN vs |-> vs[i] * U]
InBoxes(x, all, B(_)) == /\ DOMAIN all = Names(x.cfg)
                         /\ \A n \in Names(x.cfg) : InBox(all[n], B(x.cfg[n]))
Boxes(x, B(_)) == [n \in Names(x.cfg) |-> B(x.cfg[n])]
FitOrder(x) == SelectSeq(x.order, LAMBDA n : n \in Fit(x.cfg))
Whole(tab) == \A n \in DOMAIN tab : tab[n] % U = 0
Plain(tab) == [n \in DOMAIN tab |-> tab[n] \div U]
Out(x) == {n \in Fit(x.cfg) : x.tab[n] < x.cfg[n].lo * U \/ x.tab[n] > x.cfg[n].hi * U}
AsMap(x, m) == [n \in Names(x.cfg) |-> IF n \in DOMAIN m THEN m[n] * U ELSE x.tab[n]]

Same(x, e) == Clause(e.all = x.tab, "unrelated-operation-changed-parameters", x.tab)

PTJudge(x, e) ==
  CASE e.op = "start" ->
         Clause(InBoxes(x, e.all, PriorBox), "initial-parameters-from-prior", Boxes(x, PriorBox))
    [] e.op = "set" ->
         LET o == [e EXCEPT !.vals = Mul(@)]
         IN Clause(e.err = IF SetOk(x.cfg, o) THEN "" ELSE "AssertionError", "set-outcome", SetOk(x.cfg, o))
            \o Clause(e.all = DoSet(x.cfg, x.tab, o), "table-after-set", DoSet(x.cfg, x.tab, o))
    [] e.op = "setmap" ->
         LET ok == DOMAIN e.m \subseteq Names(x.cfg)
         IN Clause(e.err = IF ok THEN "" ELSE "AssertionError", "set-outcome", ok)
            \o Clause(e.all = IF ok THEN AsMap(x, e.m) ELSE x.tab, "table-after-set", AsMap(x, e.m))
    [] e.op = "get" ->
         LET ok == Known(x.cfg, e.keys)
         IN Same(x, e)
            \o Clause(e.err = IF ok THEN "" ELSE "AssertionError", "get-outcome", ok)
            \o (IF ok THEN Clause(e.val = [i \in DOMAIN e.keys |-> x.tab[e.keys[i]]], "values-got", x.tab)
                ELSE <<>>)
    [] e.op = "exist" ->
         Same(x, e)
         \o Clause(e.val = Known(x.cfg, e.keys), "exist", Known(x.cfg, e.keys))
         \o Clause(Range(e.missing) = {k \in Range(e.keys) : k \notin Names(x.cfg)}, "missing", "")
    [] e.op = "fit" ->
         Same(x, e)
         \o Clause(e.names = FitOrder(x), "free-parameters-sorted", FitOrder(x))
         \o Clause(e.val = [i \in DOMAIN FitOrder(x) |-> x.tab[FitOrder(x)[i]]], "free-parameter-array", x.tab)
    [] e.op = "sample" ->
         Clause(e.err = "", "sample-must-succeed", "")
         \o Clause(InBoxes(x, e.all, PriorBox), "sample-from-prior-in-range", Boxes(x, PriorBox))
    [] e.op = "sample_init" ->
         Clause(e.err = "", "sample-must-succeed", "")
         \o Clause(InBoxes(x, e.all, InitBox), "sample-from-initial-guess-in-range", Boxes(x, InitBox))
    [] e.op = "reinit" ->
         Clause(e.err = "", "sample-must-succeed", "")
         \o Clause(InBoxes(x, e.all, PriorBox), "sample-from-prior-in-range", Boxes(x, PriorBox))
         \o Clause(e.again = e.all, "same-seed-same-parameters", e.all)
    [] e.op = "logprior" ->
         Same(x, e)
         \o Clause(e.fin = (Out(x) = {}), "log-prior-finite-iff-in-range", Out(x))
         \o (IF e.fin /\ Out(x) = {} /\ Whole(x.tab)
             THEN Clause(Near(e.lp, LogPrior(x.cfg, Plain(x.tab)), LPTol(x.cfg, Plain(x.tab))),
                         "log-prior-value", LogPrior(x.cfg, Plain(x.tab)))
             ELSE <<>>)
    [] e.op = "stat" ->
         Clause(\A n \in DOMAIN e.draws : StatOk(x.cfg[n], e.how, e.draws[n]),
                "distribution-of-samples", {n \in DOMAIN e.draws : ~StatOk(x.cfg[n], e.how, e.draws[n])})
    [] e.op = "edgestat" ->
         Clause(EdgeStatOk(x.cfg[e.name], e.draws, e.edge), "samples-are-clipped-to-the-range", e.edge)
    [] e.op = "fact" -> Clause(e.holds, e.name, TRUE)
    [] OTHER -> <<<<"unknown-event", e.op>>>>

PTApply(x, e) == IF "all" \in DOMAIN e THEN [x EXCEPT !.tab = e.all] ELSE x
=============================================================================
