---------------------------- MODULE Gen_Workflow ----------------------------
(* Behaviours of Workflow over larger systems, printed as JSON for replay.  *)
EXTENDS Workflow, Json

DataSeq == <<"d1", "d2", "d3", "eff", "d4", "d5", "d6">>
GData == Range(DataSeq)
VARIABLE emitted
gvars == <<phase, reg, want, stack, deps, plan, step, env, key, emitted>>

Low(d) == IndexOf(DataSeq, d)
Pick(S) == RandomElement(S)
SubsetsUpTo(S, n) == {x \in SUBSET S : Cardinality(x) <= n}
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == Pick(S) IN <<x>> \o Shuffle(S \ {x})

GInit == WInit /\ emitted = FALSE

GRegister ==
  /\ phase = "register" /\ Len(reg) < MAXPLUG
  /\ \E first \in {LET open == {d \in GData : ProviderIdx(reg, d) = 0}
                     IN IF open # {} /\ Pick(1..6) > 1 THEN Pick(open) ELSE Pick(GData)} :
     \E extra \in {Pick(SubsetsUpTo({d \in GData : Low(d) > Low(first)}, MAXPROV - 1))} :
     \E dset \in {Pick(SubsetsUpTo({d \in GData : Low(d) < Low(first)} \cup {BATCH}, MAXDEP) \ {{}})} :
     \E rng \in {Pick(BOOLEAN)}, par \in {Pick({"", "p", "q"})}, cc \in {Pick(1..400)} :
       LET pr == Shuffle({first} \cup extra)
           de == Shuffle(dset)
       IN reg' = Append(reg, [name |-> "P" \o ToString(Len(reg) + 1), prov |-> pr, dep |-> de,
                              c |-> [o \in DOMAIN pr |-> cc + 17 * o], par |-> par, rng |-> rng])
  /\ UNCHANGED <<phase, want, stack, deps, plan, step, env, key, emitted>>

GRequest ==
  /\ phase = "register" /\ Len(reg) = MAXPLUG
  /\ \E rs \in {Pick(SubsetsUpTo(GData, 4) \ {{}})}, noeff \in {Pick(BOOLEAN)}, any \in {Pick(1..4)} :
       \* three times in four ask only for what can be provided
       LET ok == {d \in rs : Unprovided(reg, <<d>>) = {}}
           ne == noeff \/ (any > 1 /\ Unprovided(reg, <<EFF>>) # {})
           set == IF any > 1 THEN ok ELSE rs
           r == Shuffle(IF set \subseteq {EFF} THEN rs ELSE set)
       IN /\ want' = r
          /\ plan' = <<IF ne THEN 1 ELSE 0>>
  /\ phase' = "emit"
  /\ UNCHANGED <<reg, stack, deps, step, env, key, emitted>>

Emit == /\ phase = "emit" /\ ~emitted
        /\ LET ne == plan = <<1>>
               r == SelectSeq(want, LAMBDA d : d # EFF)
           IN IF ne /\ r = <<>> THEN TRUE
              ELSE PrintT("G|" \o ToJson([reg |-> reg, req |-> want, noeff |-> ne]))
        /\ emitted' = TRUE /\ phase' = "end"
        /\ UNCHANGED <<reg, want, stack, deps, plan, step, env, key>>

GNext == GRegister \/ GRequest \/ Emit
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
