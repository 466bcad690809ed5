----------------------------- MODULE Trace_Guards -----------------------------
EXTENDS TraceBase, Guards
GTInit(t) == [sp |-> [plugin |-> Empty, component |-> Empty], reg |-> <<>>]
Plug(e) == [id |-> e.id, prov |-> Range(e.prov), opts |-> IF e.opts = <<>> THEN Empty ELSE e.opts]
Fn(x) == IF x = <<>> THEN Empty ELSE x
GTJudge(x, e) ==
  CASE e.op = "ext" ->
         LET sp == x.sp[e.base]
             err == ExtErr(sp, e.m, e.cls, e.base, e.force)
         IN Clause(e.err = err, "extension-outcome", err)
            \o Clause(ExtOk(sp, e.m, e.mid, e.cls, e.base, e.force, Fn(e.after)), "visible-classes", sp)
    [] e.op = "one" ->
         LET sp == x.sp[e.base]
             new == AddedIds(e.cls, e.base)
             err == IF ~e.force /\ DOMAIN new \cap DOMAIN sp # {} THEN "ValueError" ELSE ""
         IN Clause(e.err = err, "extension-outcome", err)
            \o Clause(Fn(e.after) = IF err = "" THEN Over(sp, new) ELSE sp, "visible-classes", sp)
    [] e.op = "register" -> Clause(e.err = RegErr(x.reg, Plug(e)), "registration-outcome", RegErr(x.reg, Plug(e)))
    [] e.op = "providers" ->
         Clause(e.err = "", "compilation-failed", "")
         \o (IF e.err # "" THEN <<>> ELSE
             LET want == [d \in Provided(x.reg) |-> x.reg[Provider(x.reg, d)].id]
             IN Clause(Fn(e.got) = want, "providers", want))
    [] e.op = "takes" ->
         Clause(e.err = TakesErr(e.layers), "declaration-outcome", TakesErr(e.layers))
         \o (IF e.err # "" THEN <<>> ELSE Clause(Range(e.got) = Taken(e.layers), "declared-options", Taken(e.layers)))
    [] e.op = "plug" -> LET w == PlugErr(e) IN Clause(IF w = "any" THEN e.err # "" ELSE e.err = w, "plugin-outcome", w)
    [] e.op = "default" -> Clause(e.err = IF e.dict THEN "ValueError" ELSE "", "default-outcome", e.dict)
    [] e.op = "comp" -> Clause(e.err = CompErr(e), "component-outcome", CompErr(e))
    [] OTHER -> Clause(FALSE, "unknown-event", e.op)
GTApply(x, e) ==
  CASE e.op \in {"ext", "one"} -> [x EXCEPT !.sp[e.base] = Fn(e.after)]
    [] e.op = "register" -> IF e.err = "" THEN [x EXCEPT !.reg = Append(@, Plug(e))] ELSE [x EXCEPT !.reg = <<>>]
    [] OTHER -> x
=============================================================================
