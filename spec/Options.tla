-------------------------------- MODULE Options --------------------------------
(***************************************************************************)
(* Options of plugins: constants, maps and maps with uncertainty; which     *)
(* parameter the latter need, what they evaluate to, and which of the       *)
(* options somebody set were never used.                                    *)
(*                                                                         *)
(* A value is [t |-> "num", v], [t |-> "str", v] (one file),                *)
(* [t |-> "l3", m, l, u] (median, lower, upper files) or                    *)
(* [t |-> "l4", m, l, u, p] (and the name of the parameter); None: <<>>;     *)
(* [t |-> "l5", m] and numbers are no acceptable values of a sigma option.   *)
(* The map in file v is  x |-> v * (10 + x)  for 0 <= x <= 10.              *)
(* kinds : option -> "const" | "map" | "sigma";  dflt : option -> value     *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

InitO == [cache |-> <<>>, read |-> {}, maybe |-> {}, sub |-> <<>>, comp |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* reading option o for a likelihood: [st, v]; v = <<>> when there is no value *)
Read(s, dflt, o, llh) ==
  IF o \in DOMAIN s.cache
  THEN LET c == s.cache[o]
       IN [st |-> [s EXCEPT !.read = @ \cup {o}],
           v |-> IF c.kind = "s" THEN c.v ELSE IF llh \in DOMAIN c.m THEN c.m[llh] ELSE <<>>]
  ELSE IF dflt[o] = <<>> THEN [st |-> s, v |-> <<>>]
  ELSE [st |-> [s EXCEPT !.read = @ \cup {o}, !.cache = Put(@, o, [kind |-> "s", v |-> dflt[o]])],
        v |-> dflt[o]]

Param(o, v) == CASE v.t = "l4" -> {v.p} [] v.t \in {"l3", "l5"} -> {o \o "_sigma"} [] OTHER -> {}
Triple(v) == IF v.t = "str" THEN <<v.v, v.v, v.v>> ELSE IF v.t \in {"l5", "num"} THEN <<>> ELSE <<v.m, v.l, v.u>>

RECURSIVE Needs(_, _, _, _, _, _)
Needs(s, kinds, dflt, os, llh, got) ==
  IF os = <<>> THEN [st |-> s, ok |-> TRUE, need |-> got]
  ELSE IF kinds[Head(os)] # "sigma" THEN Needs(s, kinds, dflt, Tail(os), llh, got)
  ELSE LET r == Read(s, dflt, Head(os), llh)
       IN IF r.v = <<>> THEN [st |-> r.st, ok |-> FALSE, need |-> {}]
          ELSE Needs(r.st, kinds, dflt, Tail(os), llh, got \cup Param(Head(os), r.v))
RECURSIVE Compile(_, _, _, _, _, _)
Compile(s, kinds, dflt, os, llh, got) ==
  IF os = <<>> THEN [st |-> s, ok |-> TRUE, val |-> got]
  ELSE LET o == Head(os)
           r == Read(s, dflt, o, llh)
       IN IF r.v = <<>> \/ (kinds[o] = "sigma" /\ r.v.t \in {"l5", "num"})
          THEN [st |-> r.st, ok |-> FALSE, val |-> got]
          ELSE Compile(IF kinds[o] = "sigma" THEN [r.st EXCEPT !.sub = Put(@, <<o, llh>>, Triple(r.v))]
                       ELSE r.st, kinds, dflt, Tail(os), llh, Put(got, o, r.v))

(* the maps of one likelihood are fixed by its first component; another set of *)
(* maps for the same option and likelihood is outside the specification         *)
Conflict(s, kinds, dflt, os, llh) ==
  \E i \in DOMAIN os : LET r == Read(s, dflt, os[i], llh)
     IN /\ kinds[os[i]] = "sigma" /\ r.v # <<>> /\ Triple(r.v) # <<>> /\ <<os[i], llh>> \in DOMAIN s.sub
        /\ s.sub[<<os[i], llh>>] # Triple(r.v)

(* a failed build may have read any of its options (and fixed any of its maps)  *)
Failed(s, kinds, dflt, os, llh) ==
  LET R(o) == Read(s, dflt, o, llh)
      sig == {o \in {os[i] : i \in DOMAIN os} : kinds[o] = "sigma" /\ R(o).v # <<>> /\ Triple(R(o).v) # <<>>}
  IN [s EXCEPT !.maybe = @ \cup {os[i] : i \in DOMAIN os},
               !.sub = [k \in {<<o, llh>> : o \in sig} |-> Triple(R(k[1]).v)] @@ @]
DoBuild(s, kinds, dflt, id, os, llh) ==
  LET n == Needs(s, kinds, dflt, os, llh, {})
      c == Compile(n.st, kinds, dflt, os, llh, <<>>)
  IN IF ~n.ok \/ ~c.ok
     THEN [st |-> Failed(s, kinds, dflt, os, llh), err |-> "ValueError", need |-> {}]
     ELSE [st |-> [c.st EXCEPT !.comp = Put(@, id, c.val)], err |-> "", need |-> n.need]
DoSet(s, o, c) == [s EXCEPT !.cache = Put(@, o, c)]
DoClear(s) == [InitO EXCEPT !.comp = s.comp]

(* twice the value of option o with value v at x, parameters in halves          *)
Value2(kind, o, v, x, tab) ==
  CASE kind = "const" -> 2 * v.v
    [] kind = "map" -> 2 * v.v * (10 + x)
    [] kind = "sigma" ->
         LET t == Triple(v)
             P == Param(o, v)
             s2 == IF P = {} THEN 2 ELSE tab[CHOOSE p \in P : TRUE]
         IN (10 + x) * (2 * t[1] + (IF s2 > 0 THEN s2 * (t[3] - t[1]) ELSE s2 * (t[1] - t[2])))
Lacks(vals, tab) == UNION {Param(o, vals[o]) : o \in {o \in DOMAIN vals : vals[o].t \in {"l3", "l4"}}}
                    \ DOMAIN tab

(* options somebody set that (certainly, possibly) nothing has read             *)
Unused(s) == DOMAIN s.cache \ (s.read \cup s.maybe)
MaybeUnused(s) == DOMAIN s.cache \ s.read
=============================================================================
