----------------------------- MODULE Trace_Files -----------------------------
(* Judges recorded file lookups.                                              *)
EXTENDS TraceBase, Files
FPkg == [k \in {<<"pkg", "_elife.json">>, <<"pkg", "er.json">>} |-> 99]
FTInit(t) == InitF(FPkg)
(* content seen through each way of loading a file                            *)
FTJudge(s, e) ==
  CASE e.op = "look" ->
         LET w == Find(s, e.r)
         IN IF w = "none" THEN Clause(e.err # "", "missing-file-accepted", e.r)
            ELSE Clause(e.err = "", "file-not-found", w)
                 \o (IF e.err # "" THEN <<>> ELSE
                     Clause(e.v = Content(s, e.r), "wrong-file-loaded", <<w, Content(s, e.r)>>))
    [] e.op = "set" -> Clause(e.err = DoSet(s, e.o, e.r).err, "set-outcome", DoSet(s, e.o, e.r).err)
    [] e.op = "build" ->
         LET b == DoBuild(s, e.o, e.r)
         IN Clause((e.err = "") = (b.err = ""), "build-outcome", b.err)
            \o (IF e.err = "" /\ b.err = "" THEN Clause(e.v = b.v, "wrong-file-used", b.v) ELSE <<>>)
    [] OTHER -> Clause(e.err = "", "operation-must-succeed", "")
FTApply(s, e) ==
  CASE e.op = "put" -> DoPut(s, e.p, e.f, e.v)
    [] e.op = "del" -> DoDel(s, e.p, e.f)
    [] e.op = "base" -> DoBase(s, e.b)
    [] e.op = "set" -> DoSet(s, e.o, e.r).st
    [] e.op = "build" -> DoBuild(s, e.o, e.r).st
    [] e.op = "clear" -> DoClear(s)
    [] OTHER -> s
=============================================================================
