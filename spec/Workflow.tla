------------------------------ MODULE Workflow ------------------------------
(***************************************************************************)
(* Deduction and execution of the simulation workflow of one component.    *)
(*                                                                         *)
(* A plugin is a record                                                    *)
(*   [name, prov, dep, c, par, rng]                                        *)
(* prov/dep: sequences of data names (BATCH is the free input), c: one     *)
(* integer per output, par: name of the parameter it reads or "", rng: it  *)
(* consumes the random key.  Values are integers modulo M chosen so that   *)
(* a value reveals which plugin computed it, from which inputs, in which   *)
(* order and with which random key.                                        *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

M == 997
BATCH == "batch_size"
EFF == "eff"

(* ------------------------------ declarative ----------------------------- *)
(* the provider of d: the plugin registered last among those providing d    *)
Provs(reg, d) == {i \in DOMAIN reg : d \in Range(reg[i].prov)}
ProviderIdx(reg, d) == IF Provs(reg, d) = {} THEN 0
                       ELSE CHOOSE i \in Provs(reg, d) : \A j \in Provs(reg, d) : j <= i

DepsOf(reg, ds) == UNION {Range(reg[ProviderIdx(reg, d)].dep) \ {BATCH} :
                             d \in {x \in ds : ProviderIdx(reg, x) # 0}}

RECURSIVE Closure(_, _)
Closure(reg, ds) == LET n == ds \cup DepsOf(reg, ds)
                    IN IF n = ds THEN ds ELSE Closure(reg, n)

(* request with the efficiency moved to the end / dropped *)
Wanted(req, noeff) ==
  LET r == SelectSeq(req, LAMBDA d : d # EFF)
  IN IF noeff THEN r ELSE Append(r, EFF)

NeededData(reg, want) == Closure(reg, Range(want) \ {BATCH})
Unprovided(reg, want) == {d \in NeededData(reg, want) : ProviderIdx(reg, d) = 0}
NeededPlugins(reg, want) == {ProviderIdx(reg, d) : d \in NeededData(reg, want)}

RECURSIVE RankOK(_, _, _)
(* acyclicity: repeatedly remove data whose dependencies were removed *)
RankOK(reg, left, done) ==
  IF left = {} THEN TRUE
  ELSE LET rdy == {d \in left : \A e \in Range(reg[ProviderIdx(reg, d)].prov) \cap left :
                       Range(reg[ProviderIdx(reg, d)].dep) \ {BATCH} \subseteq done}
       IN IF rdy = {} THEN FALSE ELSE RankOK(reg, left \ rdy, done \cup rdy)
Acyclic(reg, want) ==
  Unprovided(reg, want) = {} => RankOK(reg, NeededData(reg, want), {})

(* plan: sequence of plugin indices *)
PlanComplete(reg, want, plan) == Range(plan) = NeededPlugins(reg, want)
PlanOnce(plan) == NoDup(plan)
PlanOrdered(reg, plan) ==
  \A i \in DOMAIN plan : \A d \in Range(reg[plan[i]].dep) \ {BATCH} :
     \E j \in 1..(i - 1) : plan[j] = ProviderIdx(reg, d)
PlanOK(reg, want, plan) == /\ PlanComplete(reg, want, plan)
                           /\ PlanOnce(plan)
                           /\ PlanOrdered(reg, plan)

(* ------------------------------ execution ------------------------------- *)
KeyStep(p, pid, k) ==
  IF p.rng THEN <<(k[1] * 7 + pid * 3 + 1) % M, (k[2] * 5 + k[1] + pid) % M>> ELSE k

ParVal(p, pars) == IF p.par = "" THEN 0 ELSE pars[p.par]

(* j-th input of event i (0-based), env: data name -> sequence of values *)
InVal(env, d, batch, i) == IF d = BATCH THEN batch + i ELSE env[d][i + 1]
RECURSIVE WSum(_, _, _, _, _)
WSum(env, dep, batch, i, j) ==
  IF j > Len(dep) THEN 0
  ELSE (j + 1) * InVal(env, dep[j], batch, i) + WSum(env, dep, batch, i, j + 1)

OutVal(p, k, env, pars, batch, i, o) ==
  LET b == WSum(env, p.dep, batch, i, 1) + ParVal(p, pars) + (IF p.rng THEN k[1] ELSE 0)
      v == ((b % M) * (o + 1) + p.c[o]) % M
  IN IF p.prov[o] = EFF THEN (v % 4) - 1 ELSE v

OutSeq(p, k, env, pars, batch, o) == [i \in 1..batch |-> OutVal(p, k, env, pars, batch, i - 1, o)]

(* executing a plan: environment and key after the first n steps.  A plugin *)
(* writes only the data it is the provider of.                              *)
RECURSIVE RunPlan(_, _, _, _, _, _, _)
RunPlan(reg, plan, n, env, key, pars, batch) ==
  IF n > Len(plan) THEN [env |-> env, key |-> key]
  ELSE LET p == reg[plan[n]]
           mine == {d \in Range(p.prov) : ProviderIdx(reg, d) = plan[n]}
           upd == [d \in mine |-> OutSeq(p, key, env, pars, batch, IndexOf(p.prov, d))]
           env2 == [d \in DOMAIN env \cup mine |-> IF d \in mine THEN upd[d] ELSE env[d]]
       IN RunPlan(reg, plan, n + 1, env2, KeyStep(p, plan[n], key), pars, batch)

Simulate(reg, plan, want, key, pars, batch) ==
  LET r == RunPlan(reg, plan, 1, <<>>, key, pars, batch)
  IN [key |-> r.key, out |-> [i \in DOMAIN want |-> r.env[want[i]]]]

(* rows of `out` (sequence of columns) whose last column is positive *)
KeepRows(out) ==
  LET n == Len(out[Len(out)])
      RECURSIVE keep(_)
      keep(i) == IF i > n THEN <<>>
                 ELSE (IF out[Len(out)][i] > 0 THEN <<i>> ELSE <<>>) \o keep(i + 1)
      rows == keep(1)
  IN [c \in DOMAIN out |-> [j \in DOMAIN rows |-> out[c][rows[j]]]]

RECURSIVE Multi(_, _, _, _, _, _, _, _)
Multi(reg, plan, want, key, pars, batch, times, apply) ==
  LET r == Simulate(reg, plan, want, key, pars, batch)
      o == IF apply THEN KeepRows(r.out) ELSE r.out
  IN IF times = 1 THEN [key |-> r.key, out |-> o]
     ELSE LET rest == Multi(reg, plan, want, r.key, pars, batch, times - 1, apply)
          IN [key |-> rest.key, out |-> [c \in DOMAIN o |-> o[c] \o rest.out[c]]]

(* ------------------------- the design as a machine ---------------------- *)
CONSTANTS DATA,       \* data names plugins may provide
          MAXPLUG,    \* number of plugins registered
          MAXPROV, MAXDEP,
          REQS,       \* requests that may be made
          FREE        \* TRUE: plugins may also depend on data nobody provides

VARIABLES phase, reg, want, stack, deps, plan, step, env, key

wvars == <<phase, reg, want, stack, deps, plan, step, env, key>>

SeqsUpTo(S, n) == UNION {{s \in [1..k -> S] : NoDup(s)} : k \in 1..n}

PARS == [p |-> 5]
NBATCH == 2

WInit == /\ phase = "register" /\ reg = <<>> /\ want = <<>> /\ stack = <<>>
         /\ deps = <<>> /\ plan = <<>> /\ step = 0 /\ env = <<>> /\ key = <<1, 2>>

NewPlugin(pr, de) ==
  LET n == Len(reg) + 1
  IN [name |-> "P" \o ToString(n), prov |-> pr, dep |-> de,
      c |-> [o \in DOMAIN pr |-> 10 * n + o], par |-> IF n % 2 = 1 THEN "p" ELSE "",
      rng |-> (n # 2)]

Register == /\ phase = "register" /\ Len(reg) < MAXPLUG
            /\ \E pr \in SeqsUpTo(DATA, MAXPROV), de \in SeqsUpTo(DATA \cup {BATCH}, MAXDEP) :
                 /\ Range(pr) \cap Range(de) = {}
                 /\ reg' = Append(reg, NewPlugin(pr, de))
            /\ UNCHANGED <<phase, want, stack, deps, plan, step, env, key>>

(* the user requests data: the deduction starts *)
Request == /\ phase = "register" /\ Len(reg) = MAXPLUG
           /\ \E r \in REQS, noeff \in BOOLEAN :
                /\ want' = Wanted(r, noeff)
                /\ Acyclic(reg, Wanted(r, noeff))
                /\ FREE \/ Unprovided(reg, Wanted(r, noeff)) = {}
                /\ stack' = <<Wanted(r, noeff)>>
           /\ phase' = "deduce" /\ deps' = <<>>
           /\ UNCHANGED <<reg, plan, step, env, key>>

(* one call of the recursive deduction: list the data of one level, then    *)
(* descend into the dependencies of each of them                            *)
Expand == /\ phase = "deduce" /\ stack # <<>>
          /\ LET names == SelectSeq(Head(stack), LAMBDA d : d # BATCH)
             IN IF \E i \in DOMAIN names : ProviderIdx(reg, names[i]) = 0
                THEN /\ phase' = "error" /\ UNCHANGED <<deps, stack>>
                ELSE /\ deps' = deps \o [i \in DOMAIN names |-> ProviderIdx(reg, names[i])]
                     /\ stack' = [i \in DOMAIN names |-> reg[ProviderIdx(reg, names[i])].dep]
                                 \o Tail(stack)
                     /\ phase' = "deduce"
          /\ UNCHANGED <<reg, want, plan, step, env, key>>

RECURSIVE Dedup(_)
(* keep the last occurrence of each plugin, reversed *)
Dedup(s) == IF s = <<>> THEN <<>>
            ELSE LET x == s[Len(s)]
                     r == SelectSeq(SubSeq(s, 1, Len(s) - 1), LAMBDA y : y # x)
                 IN <<x>> \o Dedup(r)

Simplify == /\ phase = "deduce" /\ stack = <<>>
            /\ plan' = Dedup(deps) /\ phase' = "run" /\ step' = 1
            /\ UNCHANGED <<reg, want, stack, deps, env, key>>

(* one statement of the generated function *)
Exec == /\ phase = "run" /\ step <= Len(plan)
        /\ LET p == reg[plan[step]]
               mine == {d \in Range(p.prov) : ProviderIdx(reg, d) = plan[step]}
           IN /\ env' = [d \in DOMAIN env \cup mine |->
                           IF d \in mine
                           THEN OutSeq(p, key, env, PARS, NBATCH, IndexOf(p.prov, d))
                           ELSE env[d]]
              /\ key' = KeyStep(p, plan[step], key)
        /\ step' = step + 1
        /\ UNCHANGED <<phase, reg, want, stack, deps, plan>>

Return == /\ phase = "run" /\ step > Len(plan) /\ phase' = "done"
          /\ UNCHANGED <<reg, want, stack, deps, plan, step, env, key>>

WNext == Register \/ Request \/ Expand \/ Simplify \/ Exec \/ Return
WSpec == WInit /\ [][WNext]_wvars

(* ------------------------------- properties ----------------------------- *)
InvPlan == phase \in {"run", "done"} => PlanOK(reg, want, plan)
InvError == phase = "error" => Unprovided(reg, want) # {}
InvErrorOnly == phase \in {"run", "done"} => Unprovided(reg, want) = {}
(* no statement reads a name that was not assigned *)
InvDefined == phase = "run" /\ step <= Len(plan) =>
                Range(reg[plan[step]].dep) \ {BATCH} \subseteq DOMAIN env
(* the value of each datum, once assigned, is never changed again *)
PropStable == [][\A d \in DOMAIN env : env'[d] = env[d]]_wvars
(* the imperative run agrees with the declarative one *)
InvResult == phase = "done" =>
   LET r == Simulate(reg, plan, want, <<1, 2>>, PARS, NBATCH)
   IN /\ r.key = key
      /\ \A i \in DOMAIN want : r.out[i] = env[want[i]]
=============================================================================
