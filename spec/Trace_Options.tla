---------------------------- MODULE Trace_Options ----------------------------
(* Judges recorded sessions with options of plugins: needed parameters,       *)
(* evaluation of maps with uncertainty, report of unused settings.            *)
EXTENDS TraceBase, Options

KINDS == [ca |-> "const", ma |-> "map", sa |-> "sigma", sb |-> "sigma", zz |-> "none"]
OTInit(t) == [s |-> InitO, dflt |-> t.dflt]
Rng(f) == {f[i] : i \in DOMAIN f}

Cfg(e) == IF e.kind = "s" THEN [kind |-> "s", v |-> e.v] ELSE [kind |-> "d", m |-> e.m]
B(x, e) == DoBuild(x.s, KINDS, x.dflt, e.id, e.os, e.llh)
Vals(x, e) == x.s.comp[e.id]

OTJudge(x, e) ==
  CASE e.op = "set" -> Clause(e.err = "", "set-refused", "")
    [] e.op = "clear" -> Clause(e.err = "", "clear-failed", "")
    [] e.op = "build" ->
         LET b == B(x, e)
         IN Clause(e.err = b.err, "build-outcome", b.err)
            \o (IF e.err = "" /\ b.err = ""
                THEN Clause(Rng(e.need) = b.need, "needed-parameters", b.need) ELSE <<>>)
    [] e.op = "sim" ->
         LET vals == Vals(x, e)
             lacks == Lacks(vals, e.tab)
         IN IF lacks # {}
            THEN Clause(e.err = "KeyError", "missing-parameter-accepted", lacks)
            ELSE Clause(e.err = "", "simulation-failed", "")
                 \o (IF e.err = ""
                     THEN LET want == [i \in DOMAIN e.os |->
                                         Value2(KINDS[e.os[i]], e.os[i], vals[e.os[i]], e.x, e.tab)]
                          IN Clause(e.got = want, "value-of-the-option", want)
                     ELSE <<>>)
    [] e.op = "report" ->
         LET sure == Unused(x.s)
             may == MaybeUnused(x.s)
         IN Clause(e.err = "", "report-failed", "")
            \o (IF e.err # "" THEN <<>> ELSE
                Clause(sure # {} => e.warned, "unused-options-not-reported", sure)
                \o Clause(may = {} => ~e.warned, "report-without-unused-options", "")
                \o (IF e.warned
                    THEN Clause(sure \subseteq Rng(e.names), "unused-option-missing", sure)
                         \o Clause(Rng(e.names) \subseteq may, "used-option-reported", may)
                    ELSE <<>>))
    [] OTHER -> Clause(FALSE, "unknown-event", e.op)

OTApply(x, e) ==
  CASE e.op = "set" -> [x EXCEPT !.s = DoSet(x.s, e.o, Cfg(e))]
    [] e.op = "build" -> [x EXCEPT !.s = B(x, e).st]
    [] e.op = "clear" -> [x EXCEPT !.s = DoClear(x.s)]
    [] OTHER -> x
=============================================================================
