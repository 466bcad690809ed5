----------------------------- MODULE MC_Session -----------------------------
EXTENDS Session, Json

CONSTANTS COMPS, DFLT, LLHS, VALS, EMIT, MAXLEN, BADKINDS, PSET

VARIABLES s, hist, last
mvars == <<s, hist, last>>

(* constants for the cfg files *)
C3 == [a |-> [llh |-> "l1", name |-> "x", func |-> "f", keys |-> <<"k1", "k2">>],
       b |-> [llh |-> "l1", name |-> "y", func |-> "g", keys |-> <<"k1">>],
       d |-> [llh |-> "l2", name |-> "x", func |-> "f", keys |-> <<"k2">>],
       e |-> [llh |-> "l1", name |-> "x", func |-> "h", keys |-> <<"k1">>]]
C2 == [a |-> [llh |-> "l1", name |-> "x", func |-> "f", keys |-> <<"k1", "k2">>],
       b |-> [llh |-> "l1", name |-> "y", func |-> "f", keys |-> <<"k1">>],
       d |-> [llh |-> "l2", name |-> "x", func |-> "f", keys |-> <<"k2">>]]
D3 == [k1 |-> 1, k2 |-> 0]
C6 == [a |-> [llh |-> "l1", name |-> "x", func |-> "f", keys |-> <<"k1", "k3">>],
       b |-> [llh |-> "l1", name |-> "y", func |-> "g", keys |-> <<"k1", "k2", "k4">>],
       c |-> [llh |-> "l2", name |-> "x", func |-> "f", keys |-> <<"k1", "k3", "k4">>],
       d |-> [llh |-> "l2", name |-> "y", func |-> "f", keys |-> <<"k2">>],
       e |-> [llh |-> "l1", name |-> "x", func |-> "h", keys |-> <<"k3">>],
       g |-> [llh |-> "l3", name |-> "z", func |-> "f", keys |-> <<"k4", "k3", "k2", "k1">>]]
D6 == [k1 |-> 1, k2 |-> 0, k3 |-> 2, k4 |-> 3]
KEYS == DOMAIN DFLT

Maps == UNION {[S -> VALS] : S \in SUBSET LLHS}
Ops ==
  {[op |-> "set", k |-> k, kind |-> "s", v |-> v, m |-> <<>>] : k \in KEYS, v \in VALS}
  \cup {[op |-> "set", k |-> k, kind |-> "d", v |-> 0, m |-> m] : k \in KEYS, m \in Maps}
  \cup {[op |-> "set", k |-> k, kind |-> b, v |-> 0, m |-> <<>>] : k \in KEYS, b \in BADKINDS}
  \cup {[op |-> o, c |-> c] : o \in {"deduce", "compile", "simulate"}, c \in DOMAIN COMPS}
  \cup {[op |-> "clear_functions"], [op |-> "clear_all"]}

MInit == s = InitS /\ hist = <<>> /\ last = <<>>
MNext == \E o \in Ops :
           /\ Enabled(s, o)
           /\ s' = DoOp(s, COMPS, DFLT, o).st
           /\ last' = IF EMIT THEN last ELSE o
           /\ hist' = IF EMIT THEN Append(hist, o) ELSE hist
MSpec == MInit /\ [][MNext]_mvars
View == s

(* a compiled simulation is changed only by compiling that component *)
PropFrozen == [][\A c \in DOMAIN s.comp :
    (s.comp[c].ready /\ ~(last'.op = "compile" /\ last'.c = c))
        => s'.comp[c].val = s.comp[c].val /\ s'.comp[c].ready]_mvars
(* no two live deductions occupy the same name *)
InvNames == \A c, d \in DOMAIN s.comp :
    c # d /\ s.comp[c].deduced /\ s.comp[d].deduced /\ COMPS[c].llh = COMPS[d].llh
       => Names(COMPS[c]) \cap Names(COMPS[d]) = {}
(* explicit settings win over defaults and are never replaced by them *)
PropSet == [][\A k \in DOMAIN s.cache :
    (k \in DOMAIN s'.cache /\ ~(last'.op = "set" /\ last'.k = k)) => s'.cache[k] = s.cache[k]]_mvars
InvVals == \A c \in DOMAIN s.comp : s.comp[c].ready =>
    DOMAIN s.comp[c].val = Range(COMPS[c].keys) /\ \A k \in DOMAIN s.comp[c].val : s.comp[c].val[k] # 0

(* generation: a random walk, printed when it is complete.  The operators take *)
(* a state-level argument so that TLC does not treat them as constants.        *)
RE(S, h) == RandomElement(IF h >= 0 THEN S ELSE {})
GSet(h, k) ==
  LET p == RE(1..8, h)
  IN IF p <= 4 THEN [op |-> "set", k |-> k, kind |-> "s", v |-> RE(VALS, h), m |-> <<>>]
     ELSE IF p <= 7 THEN [op |-> "set", k |-> k, kind |-> "d", v |-> 0,
             m |-> LET S == RE(SUBSET LLHS, h) IN [x \in S |-> RE(VALS, h)]]
     ELSE [op |-> "set", k |-> k, kind |-> RE(BADKINDS, h), v |-> 0, m |-> <<>>]
GOp(h) ==
  LET p == RE(1..40, h)
      c == RE(DOMAIN COMPS, h)
  IN IF p <= PSET THEN GSet(h, RE(KEYS, h))
     ELSE IF p <= PSET + 7 THEN [op |-> "deduce", c |-> c]
     ELSE IF p <= PSET + 16 THEN [op |-> "compile", c |-> c]
     ELSE IF p <= 38 THEN [op |-> "simulate", c |-> c]
     ELSE IF p = 39 THEN [op |-> "clear_functions"]
     ELSE [op |-> "clear_all"]
GNext == /\ Len(hist) < MAXLEN
         /\ \E o \in {GOp(Len(hist))} :
              IF Enabled(s, o)
              THEN /\ s' = DoOp(s, COMPS, DFLT, o).st
                   /\ hist' = Append(hist, o)
                   /\ last' = last
                   /\ IF Len(hist) + 1 = MAXLEN
                      THEN PrintT("G|" \o ToJson([ops |-> Append(hist, o)])) ELSE TRUE
              ELSE /\ s' = s /\ hist' = hist /\ last' = Append(last, 0)
GSpec == MInit /\ [][GNext]_mvars
=============================================================================
