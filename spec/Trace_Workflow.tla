--------------------------- MODULE Trace_Workflow ---------------------------
(* Judges recorded executions of Component.register / deduce / simulate.    *)
EXTENDS TraceBase, Workflow

Idx(rg, name) == IF \E i \in DOMAIN rg : rg[i].name = name
                 THEN CHOOSE i \in DOMAIN rg : rg[i].name = name ELSE 0

WTInit(t) == [reg |-> <<>>, want |-> <<>>, plan |-> <<>>, noeff |-> FALSE, comps |-> <<>>]

(* the key after the components of a likelihood ran one after the other; a  *)
(* fixed component (no plugins) does not consume the key                    *)
RECURSIVE FoldKey(_, _, _, _)
FoldKey(rg, pl, n, k) == IF n > Len(pl) THEN k
                         ELSE FoldKey(rg, pl, n + 1, KeyStep(rg[pl[n]], pl[n], k))
RECURSIVE FoldComps(_, _, _)
FoldComps(cs, n, k) == IF n > Len(cs) THEN k
                       ELSE FoldComps(cs, n + 1, FoldKey(cs[n].reg, cs[n].plan, 1, k))

PlanIdx(rg, pl) == [i \in DOMAIN pl |-> Idx(rg, pl[i].name)]

DeduceJudge(s, e) ==
  LET w == Wanted(e.req, e.noeff)
      miss == Unprovided(s.reg, w)
      pl == PlanIdx(s.reg, e.plan)
  IN IF miss # {}
     THEN Clause(e.err = "ValueError", "missing-provider-must-raise-ValueError", miss)
     ELSE Clause(e.err = "", "deduce-must-succeed", PlanIdx(s.reg, e.plan))
          \o (IF e.err # "" THEN <<>> ELSE
             Clause(0 \notin Range(pl), "plan-unknown-plugin", {s.reg[i].name : i \in NeededPlugins(s.reg, w)})
          \o (IF 0 \in Range(pl) THEN <<>> ELSE
                Clause(PlanComplete(s.reg, w, pl), "plan-is-exactly-the-needed-plugins",
                       {s.reg[i].name : i \in NeededPlugins(s.reg, w)})
             \o Clause(PlanOnce(pl), "plan-each-plugin-once", Range(pl))
             \o Clause(PlanOrdered(s.reg, pl), "plan-dependency-order", pl)
             \o Clause(\A i \in DOMAIN pl : e.plan[i].prov = s.reg[pl[i]].prov
                                         /\ e.plan[i].dep = s.reg[pl[i]].dep,
                       "plan-provides-depends", pl)
             \o (IF "pars" \in DOMAIN e
                 THEN Clause(Range(e.pars) = {s.reg[i].par : i \in Range(pl)} \ {""},
                             "needed-parameters-of-plan", {s.reg[i].par : i \in Range(pl)})
                 ELSE <<>>)))

RunJudge(s, e) ==
  LET r == Multi(s.reg, s.plan, s.want, e.key, e.pars, e.batch, e.times, e.apply)
  IN IF e.apply /\ s.noeff
     THEN Clause(e.err = "RuntimeError", "apply_eff-without-efficiency-must-raise", "RuntimeError")
     ELSE Clause(e.err = "", "simulate-must-succeed", r)
          \o (IF e.err # "" THEN <<>> ELSE
             Clause(Len(e.out) = Len(r.out), "one-output-per-requested-name", Len(r.out))
          \o Clause(e.out = r.out, "simulated-values", r.out)
          \o Clause(e.keyout = r.key, "returned-random-key", r.key))

WTJudge(s, e) ==
  CASE e.op = "register" -> <<>>
    [] e.op = "deduce" -> DeduceJudge(s, e)
    [] e.op = "run" -> RunJudge(s, e)
    [] e.op = "component" -> <<>>
    [] e.op = "llh" ->
         Clause(e.err = "", "likelihood-must-evaluate", "")
         \o (IF e.err # "" THEN <<>> ELSE
             Clause(e.keyout = FoldComps(s.comps, 1, e.key), "key-threaded-through-components",
                    FoldComps(s.comps, 1, e.key)))
    [] e.op = "fact" -> Clause(e.holds, e.name, TRUE)
    [] OTHER -> <<<<"unknown-event", e.op>>>>

WTApply(s, e) ==
  CASE e.op = "register" -> [s EXCEPT !.reg = Append(@, e.plugin)]
    [] e.op = "deduce" -> IF e.err = ""
                          THEN [s EXCEPT !.want = Wanted(e.req, e.noeff), !.noeff = e.noeff,
                                         !.plan = PlanIdx(s.reg, e.plan)]
                          ELSE s
    [] e.op = "component" -> [s EXCEPT !.comps = Append(@, [reg |-> s.reg, plan |-> s.plan]),
                                       !.reg = <<>>, !.plan = <<>>, !.want = <<>>]
    [] OTHER -> s

(* the machine of Workflow is not stepped here *)
Idle == /\ phase = 0 /\ reg = 0 /\ want = 0 /\ stack = 0 /\ deps = 0 /\ plan = 0
        /\ step = 0 /\ env = 0 /\ key = 0
TInit == TraceInit /\ Idle
TSpec == TInit /\ [][TraceNext /\ UNCHANGED wvars]_<<tvars, wvars>>
=============================================================================
