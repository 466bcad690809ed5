------------------------------ MODULE Trace_Lit ------------------------------
EXTENDS TraceBase, Lit
LTInit(t) == [vtype |-> t.vtype, args |-> t.args, pts |-> t.pts]
Tol(x, w) == 3 + 2 * Len(x.pts) + Abs(w.v) \div 1000000
LTJudge(x, e) ==
  CASE e.op = "new" -> Clause(e.err = NewErr(e.vtype, e.dim), "creation-outcome", NewErr(e.vtype, e.dim))
    [] e.op = "register" -> Clause(e.err = RegErr(e.n), "registration-outcome", RegErr(e.n))
    [] e.op = "needs" -> Clause({e.got[i] : i \in DOMAIN e.got} = {e.want[i] : i \in DOMAIN e.want},
                                "needed-parameters", e.want)
    [] e.op = "llh" ->
         LET w == Value(x.vtype, x.args, x.pts, e.d)
         IN Clause(e.err = "", "evaluation-failed", "")
            \o (IF e.err # "" THEN <<>> ELSE
                Clause(e.kout = e.left, "key-left-by-the-component", e.left)
                \o Clause(e.val.k = w.k /\ (w.k = "num" => Near(e.val.v, w.v, Tol(x, w))),
                          "log-likelihood", w)
                \o Clause(e.warned = (e.batch # 1), "warning-about-the-batch-size", e.batch))
    [] OTHER -> Clause(FALSE, "unknown-event", e.op)
LTApply(x, e) == x
=============================================================================
