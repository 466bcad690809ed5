----------------------------- MODULE Trace_Interp -----------------------------
EXTENDS TraceBase, Interp
NTInit(t) == t.map
NTJudge(x, e) ==
  CASE e.op = "build" -> Clause(e.err = "", "map-refused", "")
    [] e.op = "apply" ->
         Clause(e.err = "", "map-not-applicable", "")
         \o (IF e.err # "" THEN <<>> ELSE
             Clause(e.ok, "value-not-finite", "")
             \o (CASE x.kind = "reg" -> Clause(Allowed(x, x.method, e.q, e.got), "interpolated-value", x.method)
                   [] x.kind = "point" -> Clause(PAllowed(x.xs, x.v, x.method, e.q, e.got), "interpolated-value", PLerp(x.xs, x.v, e.q))
                   [] OTHER -> Clause(KnnAllowed(x.refs, x.v, e.q, x.k, e.got), "nearest-neighbours-value", Knn(x.refs, e.q, x.k)))
             \o Clause(Near(e.got, e.alone, 1), "value-depends-on-other-events", e.got))
    [] e.op = "load" -> Clause(e.err = LoadErr(e.d), "loading-outcome", LoadErr(e.d))
    [] e.op = "quantile" ->
         Clause(e.err = "", "map-not-applicable", "")
         \o (IF e.err # "" THEN <<>> ELSE
             Clause(\A i \in DOMAIN e.got : QAllowed(x.xs, x.ps, i - 1, Len(e.got) - 1, e.got[i]), "quantile", Mass(x.xs, x.ps))
             \o Clause(\A i, j \in DOMAIN e.got : i < j => e.got[i] <= e.got[j], "quantiles-not-ordered", "")
             \o Clause(e.name = "cdf", "converted-coordinate", "cdf")
             \o Clause(e.warned, "conversion-not-announced", ""))
    [] OTHER -> Clause(FALSE, "unknown-event", e.op)
NTApply(x, e) == x
=============================================================================
