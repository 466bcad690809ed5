---------------------------- MODULE Trace_Lineage ----------------------------
EXTENDS TraceBase, Lineage
ITInit(t) == {}
(* e.tok: level -> hash, e.again: level -> hash asked for once more               *)
ITJudge(seen, e) ==
  Clause(e.err = "", "lineage-failed", "")
  \o (IF e.err # "" THEN <<>> ELSE
      Clause(DOMAIN e.tok = {l \in DOMAIN e.tok \cup {"fixed"} : Exists(e.v, l)}, "levels", "")
      \o Clause(\A l \in DOMAIN e.again : e.again[l] = e.tok[l], "lineage-not-stable", {l \in DOMAIN e.again : e.again[l] # e.tok[l]})
      \o Clause(\A l \in DOMAIN e.tok : Consistent(seen, l, View(e.v, l), e.tok[l]), "lineage-hash",
                {l \in DOMAIN e.tok : ~Consistent(seen, l, View(e.v, l), e.tok[l])}))
ITApply(seen, e) == seen \cup {<<l, View(e.v, l), e.tok[l]>> : l \in DOMAIN e.tok}
=============================================================================
