---------------------------- MODULE Trace_Session ----------------------------
(* Judges recorded sessions: configuration, deduction, compilation and       *)
(* simulation of several components.  The first event declares the           *)
(* components and the defaults.                                              *)
EXTENDS TraceBase, Session

STInit(t) == [s |-> InitS, comps |-> t.comps, dflt |-> t.dflt]

OpRec(e) == IF e.op = "set" THEN [op |-> "set", k |-> e.k, kind |-> e.kind, v |-> e.v, m |-> e.m]
            ELSE e
Result(x, e) == DoOp(x.s, x.comps, x.dflt, OpRec(e))

(* what show_config must report: every option of the component, with the     *)
(* value that is in force for its likelihood (0: no value)                   *)
Shown(x, c) == [k \in Range(x.comps[c].keys) |->
                  Resolve(x.s.cache, x.dflt, k, x.comps[c].llh)]

ErrName(op) == CASE op = "set" -> "set-config-outcome"
                 [] op = "deduce" -> "deduce-outcome"
                 [] op = "compile" -> "compile-outcome"
                 [] OTHER -> "operation-must-succeed"

STJudge(x, e) ==
  IF e.op = "show"
  THEN Clause(e.err = "", "operation-must-succeed", "")
       \o (IF e.err # "" THEN <<>> ELSE
           Clause(e.val = Shown(x, e.c), "shown-configuration", Shown(x, e.c)))
  ELSE LET r == Result(x, e)
       IN Clause(e.err = r.err, ErrName(e.op), r.err)
          \o (IF e.op = "simulate" /\ e.err = ""
              THEN Clause(e.val = r.val, "values-of-the-compiled-simulation", r.val)
              ELSE <<>>)

STApply(x, e) == IF e.op = "show" THEN x ELSE [x EXCEPT !.s = Result(x, e).st]
=============================================================================
