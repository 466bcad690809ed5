------------------------------- MODULE Lineage -------------------------------
(***************************************************************************)
(* Lineage: what identifies a result.  A context is defined by ingredients   *)
(* (a record v of small numbers); the hash at every level is a one-to-one    *)
(* function of the ingredients that matter at that level, and of nothing     *)
(* else: not of the history, the order in which things are written down, the *)
(* process, or later changes of the global configuration.                    *)
(* Ingredients                                                               *)
(*  o1, o2 : value of a constant in likelihood l1, l2;  form : written as one *)
(*           number (only if equal) or per likelihood                        *)
(*  set    : a set of values;  m : content of a map file;  s : content of the *)
(*           upper map of a map with uncertainty; q : name of its parameter   *)
(*  p : which plugin was registered last;  n : normalisation                  *)
(*  b : bins of l1;  d : content of the data file of l1;  a : alias in l1     *)
(*  c : l1 has a fixed component too;  f : content of its file                *)
(*  r : prior;  x : an unrelated option                                       *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

Ingredients == {"o1", "o2", "form", "set", "m", "s", "q", "p", "n", "b", "d", "a", "c", "f", "r", "x"}
PluginOf(o) == {o, "set", "m", "s", "q"}
CompOf(o) == PluginOf(o) \cup {"p", "n"}
Matters(level) ==
  CASE level \in {"plug1", "inst1"} -> PluginOf("o1")
    [] level = "inst2" -> PluginOf("o2")
    [] level = "comp1" -> CompOf("o1") \cup {"b"}
    [] level = "comp2" -> CompOf("o2")
    [] level = "fixed" -> {"f", "b"}
    [] level = "llh1" -> CompOf("o1") \cup {"b", "d", "a", "c", "f"}
    [] level = "llh2" -> CompOf("o2")
    [] level = "set" -> {"set"}
    [] level = "map" -> {"m"}
    [] OTHER -> Ingredients
(* ingredients that are not there do not matter                                 *)
Canon(v) == [v EXCEPT !.f = IF v.c = 1 THEN @ ELSE 0, !.form = IF v.o1 = v.o2 THEN @ ELSE 1]
Exists(v, level) == level # "fixed" \/ v.c = 1
View(v, level) == [k \in Matters(level) |-> Canon(v)[k]]
(* seen: set of <<level, view, token>> of everything built so far                 *)
Consistent(seen, level, view, tok) ==
  \A z \in seen : z[1] = level => (z[2] = view) = (z[3] = tok)
=============================================================================
