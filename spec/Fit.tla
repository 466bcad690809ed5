---------------------------------- MODULE Fit ----------------------------------
(***************************************************************************)
(* Fits: chains of walker positions, backends, continuing, reloading.       *)
(* A chain is a sequence of rows, a row a sequence of walkers' positions    *)
(* (numbers that identify a parameter point); L[p] is the log posterior      *)
(* of point p (only its order matters).                                     *)
(* ctx  : id -> [file, rows]    file "" = no backend; rows kept in memory    *)
(* files: name -> [rows, meta]  meta: the fit was completed at least once    *)
(*        since the last reset, [ok, batch]                                 *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

InitFit == [ctx |-> <<>>, files |-> <<>>]
FPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NoMeta == [ok |-> FALSE, batch |-> 0]

Rows(s, c) == LET f == s.ctx[c].file
              IN IF f = "" THEN s.ctx[c].rows
                 ELSE IF s.ctx[c].open /\ f \in DOMAIN s.files THEN s.files[f].rows ELSE <<>>
Last(rows) == rows[Len(rows)]
Flat(rows) == Concat(rows)

DoNew(s, c, f) == [s EXCEPT !.ctx = FPut(@, c, [file |-> f, rows |-> <<>>, open |-> FALSE])]
(* every walker stays where it was or moves to a point that was evaluated      *)
Steps(rows, start, evald) ==
  \A i \in DOMAIN rows :
    LET before == IF i = 1 THEN start ELSE rows[i - 1]
    IN /\ Len(rows[i]) = Len(before)
       /\ \A w \in DOMAIN rows[i] : rows[i][w] \in {before[w]} \cup evald
Frozen(rows, start) == \A i \in DOMAIN rows : rows[i] = start

Prefix(s, c, kind) == IF kind = "fit" THEN <<>>
                      ELSE IF s.ctx[c].file = "" THEN <<>>
                      ELSE IF s.ctx[c].file \in DOMAIN s.files THEN s.files[s.ctx[c].file].rows ELSE <<>>
(* where continuing c from src starts                                          *)
Start(s, c, src) == Last(Rows(s, src))
(* the chain after adding rows; ok: the fit was completed                       *)
Added(s, c, kind, new, ok, batch) ==
  LET f == s.ctx[c].file
      all == Prefix(s, c, kind) \o new
      old == IF f \in DOMAIN s.files /\ kind # "fit" THEN s.files[f].meta ELSE NoMeta
  IN [s EXCEPT !.ctx = FPut(@, c, [file |-> f, rows |-> IF f = "" THEN all ELSE <<>>, open |-> TRUE]),
               !.files = IF f = "" THEN @
                         ELSE FPut(@, f, [rows |-> all, meta |-> IF ok THEN [ok |-> TRUE, batch |-> batch] ELSE old])]
(* a context made from a backend file (or a renamed copy of it)                 *)
DoReload(s, c, f, g) ==
  LET s1 == IF f = g THEN s ELSE [s EXCEPT !.files = FPut(@, g, s.files[f])]
  IN [s1 EXCEPT !.ctx = FPut(@, c, [file |-> g, rows |-> <<>>, open |-> TRUE])]

(* -------------------------------------------------------------- posterior      *)
Points(rows) == Range(Flat(rows))
Best(rows, L) == {p \in Points(rows) : \A q \in Points(rows) : L[p] >= L[q]}
(* twice the median of the values v[p] over the chain (sequence of integers)    *)
KthVal(vs, k) == CHOOSE x \in Range(vs) :
                   /\ Cardinality({i \in DOMAIN vs : vs[i] < x}) < k
                   /\ Cardinality({i \in DOMAIN vs : vs[i] <= x}) >= k
Median2(vs) == LET m == Len(vs) IN IF m % 2 = 1 THEN 2 * KthVal(vs, (m + 1) \div 2)
                                   ELSE KthVal(vs, m \div 2) + KthVal(vs, m \div 2 + 1)
(* rows left by discarding the first d and keeping every t-th                   *)
Thin(rows, d, t) == [i \in 1..((Len(rows) - d) \div t) |-> rows[d + i * t]]
=============================================================================
