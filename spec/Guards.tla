-------------------------------- MODULE Guards --------------------------------
(***************************************************************************)
(* What may be registered, and what is refused.                              *)
(* space : "plugin" / "component" -> (name -> id) of what is visible there    *)
(* reg   : sequence of plugins registered in a component, with               *)
(*         [id, prov (set of data names), opts (option -> default)]           *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

Empty == [x \in {} |-> 0]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
(* the classes of a module that are extensions of this base                     *)
Offered(cls, base) == {i \in DOMAIN cls : cls[i].k = base}
NamesOf(cls, base) == {cls[i].n : i \in Offered(cls, base)}
Added(cls, base) == [x \in NamesOf(cls, base) |-> (CHOOSE i \in Offered(cls, base) : cls[i].n = x)]
AddedIds(cls, base) == [x \in NamesOf(cls, base) |-> cls[Added(cls, base)[x]].id]
ExtErr(sp, m, cls, base, force) ==
  IF ~force /\ (m \in DOMAIN sp \/ NamesOf(cls, base) \cap DOMAIN sp # {}) THEN "ValueError" ELSE ""
(* after: what is visible afterwards; a refusal never replaces anything           *)
ExtOk(sp, m, mid, cls, base, force, after) ==
  LET new == Over([x \in {m} |-> mid], AddedIds(cls, base))
  IN IF ExtErr(sp, m, cls, base, force) = "" THEN after = Over(sp, new)
     ELSE /\ DOMAIN sp \subseteq DOMAIN after
          /\ \A x \in DOMAIN sp : after[x] = sp[x]
          /\ \A x \in DOMAIN after \ DOMAIN sp : x \in DOMAIN new /\ after[x] = new[x]

(* plugins in effect: those still providing something                             *)
Provider(reg, d) == LET S == {i \in DOMAIN reg : d \in reg[i].prov} IN CHOOSE i \in S : \A j \in S : j <= i
Provided(reg) == UNION {reg[i].prov : i \in DOMAIN reg}
InEffect(reg) == {Provider(reg, d) : d \in Provided(reg)}
Conflict(reg, p) ==
  \E i \in InEffect(Append(reg, p)) : \E o \in DOMAIN p.opts \cap DOMAIN Append(reg, p)[i].opts :
     Append(reg, p)[i].opts[o] # p.opts[o]
RegErr(reg, p) == IF Conflict(reg, p) THEN "ValueError" ELSE ""

(* options declared in several layers (decorators, parents)                        *)
TakesErr(layers) ==
  IF \E i \in DOMAIN layers : "nonsense" \in Range(layers[i]) THEN "RuntimeError"
  ELSE IF \E i, j \in DOMAIN layers : i < j /\ Range(layers[i]) \cap Range(layers[j]) # {} THEN "RuntimeError"
  ELSE ""
Taken(layers) == UNION {Range(layers[i]) : i \in DOMAIN layers}

(* a plugin: what it declares against the arguments of its simulation               *)
PlugErr(p) ==
  IF p.deps = <<>> \/ p.prov = <<>> THEN "ValueError"
  ELSE IF Len(p.args) >= Len(p.deps) + 2 /\ SubSeq(p.args, 1, Len(p.deps) + 2) # <<"key", "parameters">> \o p.deps THEN "ValueError"
  ELSE IF Len(p.args) < Len(p.deps) + 2 THEN "any"
  ELSE ""
CompErr(c) ==
  IF c.fixed /\ ~c.file THEN "ValueError"
  ELSE IF c.bt \notin {"irreg", "meshgrid", "none"} THEN "ValueError" ELSE ""
=============================================================================
