------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* One interactive session: global configuration, deduction, compilation   *)
(* and simulation of several components of several likelihoods.            *)
(*                                                                         *)
(* comps : component id -> [llh, name, func, keys]   (keys: the sequence of *)
(*         configuration options of its plugins, in plan order)            *)
(* dflt  : option -> default value, 0 when the option has no default       *)
(* A stored option is [kind |-> "s", v |-> value] or                       *)
(*                    [kind |-> "d", m |-> likelihood -> value].           *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

InitS == [cache |-> <<>>, ns |-> <<>>, comp |-> <<>>]

Scalar(v) == [kind |-> "s", v |-> v]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* resolution of option k for likelihood llh in a cache: value 0 = error *)
Resolve(cache, dflt, k, llh) ==
  IF k \in DOMAIN cache
  THEN IF cache[k].kind = "s" THEN cache[k].v
       ELSE IF llh \in DOMAIN cache[k].m THEN cache[k].m[llh] ELSE 0
  ELSE dflt[k]

(* building the options one after the other: the default of an option that  *)
(* was not set becomes its global value; stops at the first failure         *)
RECURSIVE Build(_, _, _, _, _)
Build(cache, dflt, keys, llh, got) ==
  IF keys = <<>> THEN [ok |-> TRUE, cache |-> cache, val |-> got]
  ELSE LET k == Head(keys)
           v == Resolve(cache, dflt, k, llh)
           c2 == IF k \in DOMAIN cache \/ dflt[k] = 0 THEN cache ELSE Put(cache, k, Scalar(dflt[k]))
       IN IF v = 0 THEN [ok |-> FALSE, cache |-> c2, val |-> got]
          ELSE Build(c2, dflt, Tail(keys), llh, Put(got, k, v))

(* names a component occupies in the namespace of its likelihood *)
Names(ci) == {<<"func", ci.func>>} \cup {<<"inst", ci.name, k>> : k \in Range(ci.keys)}

Ok(s) == [st |-> s, err |-> "", val |-> <<>>]
Err(s, e) == [st |-> s, err |-> e, val |-> <<>>]

DoSet(s, k, kind, v, m) ==
  CASE kind = "s" -> Ok([s EXCEPT !.cache = Put(@, k, Scalar(v))])
    [] kind = "d" -> Ok([s EXCEPT !.cache = Put(@, k, [kind |-> "d", m |-> m])])
    [] kind = "bad" -> Err(s, "NotImplementedError")
    [] kind = "nofile" -> Err(s, "RuntimeError")

DoDeduce(s, comps, c) ==
  LET ci == comps[c]
      used == IF ci.llh \in DOMAIN s.ns THEN s.ns[ci.llh] ELSE {}
  IN IF used \cap Names(ci) # {} THEN Err(s, "RuntimeError")
     ELSE Ok([s EXCEPT !.ns = Put(@, ci.llh, used \cup Names(ci)),
                       !.comp = Put(@, c, [deduced |-> TRUE,
                            ready |-> IF c \in DOMAIN s.comp THEN s.comp[c].ready ELSE FALSE,
                            val |-> IF c \in DOMAIN s.comp THEN s.comp[c].val ELSE <<>>])])

DoCompile(s, comps, dflt, c) ==
  LET b == Build(s.cache, dflt, comps[c].keys, comps[c].llh, <<>>)
  IN IF b.ok
     THEN Ok([s EXCEPT !.cache = b.cache,
                       !.comp = Put(@, c, [deduced |-> TRUE, ready |-> TRUE, val |-> b.val])])
     ELSE \* what was compiled before is not to be relied upon any more
          Err([s EXCEPT !.cache = b.cache, !.comp = [@ EXCEPT ![c].ready = FALSE]], "ValueError")

(* the values a compiled simulation works with *)
DoSimulate(s, c) == [st |-> s, err |-> "", val |-> s.comp[c].val]

(* after clearing the cache nothing is reserved; compiled simulations live on *)
Forget(s) == [c \in DOMAIN s.comp |-> [s.comp[c] EXCEPT !.deduced = FALSE]]
DoClearFunctions(s) == Ok([s EXCEPT !.ns = <<>>, !.comp = Forget(s)])
DoClearAll(s) == Ok([s EXCEPT !.ns = <<>>, !.cache = <<>>, !.comp = Forget(s)])

CanCompile(s, c) == c \in DOMAIN s.comp /\ s.comp[c].deduced
CanSimulate(s, c) == c \in DOMAIN s.comp /\ s.comp[c].ready

DoOp(s, comps, dflt, o) ==
  CASE o.op = "set" -> DoSet(s, o.k, o.kind, o.v, o.m)
    [] o.op = "deduce" -> DoDeduce(s, comps, o.c)
    [] o.op = "compile" -> DoCompile(s, comps, dflt, o.c)
    [] o.op = "simulate" -> DoSimulate(s, o.c)
    [] o.op = "clear_functions" -> DoClearFunctions(s)
    [] o.op = "clear_all" -> DoClearAll(s)

Enabled(s, o) ==
  CASE o.op = "compile" -> CanCompile(s, o.c)
    [] o.op = "simulate" -> CanSimulate(s, o.c)
    [] OTHER -> TRUE
=============================================================================
