------------------------------ MODULE MC_Lineage ------------------------------
EXTENDS Lineage, Json
CONSTANTS MAXLEN, VALS
VARIABLES s, hist, n
mvars == <<s, hist, n>>
Levels == {"ctx", "llh1", "llh2", "comp1", "comp2", "fixed", "inst1", "inst2", "set", "map"}
Zero == [k \in Ingredients |-> 0]
(* ------------------------------------------------------------ exhaustive *)
(* any two definitions: what is seen at a level determines what is seen below it *)
MInit == n = 0 /\ hist = <<>> /\ s = Zero
MNext == \E k \in Ingredients, x \in VALS : n < MAXLEN /\ n' = n + 1 /\ s' = [s EXCEPT ![k] = x] /\ hist' = <<k>>
MSpec == MInit /\ [][MNext]_mvars
Below == [ctx |-> {"llh1", "llh2"}, llh1 |-> {"comp1", "fixed"}, llh2 |-> {"comp2"}, comp1 |-> {"inst1"}, comp2 |-> {"inst2"},
          inst1 |-> {"set", "map"}, inst2 |-> {"set", "map"}]
InvBelow == \A l \in DOMAIN Below : \A m \in Below[l] : Matters(m) \subseteq Matters(l)
(* a change is visible exactly where it matters                                   *)
PropVisible == [][\A l \in Levels : View(s', l) # View(s, l) =>
                    \E k \in Matters(l) : s'[k] # s[k] \/ k \in {"f", "form"}]_mvars
PropOnly == [][\A l \in Levels : s # s' /\ hist'[1] \notin Matters(l) \cup {"c", "o1", "o2"} => View(s', l) = View(s, l)]_mvars

(* ---------------------------------------------------------------- generation *)
RE(S, h) == RandomElement(IF h >= 0 THEN S ELSE {})
GStep(h) == [op |-> "build", k |-> RE(Ingredients, h), x |-> RE(0..2, h), back |-> RE({TRUE, FALSE, FALSE}, h),
             shuffle |-> RE({TRUE, FALSE}, h), again |-> RE({TRUE, FALSE}, h), proc |-> RE(1..40, h) = 1]
(* the vectors that were built; back: build an earlier one again                    *)
Vec(o) == IF o.back /\ hist # <<>> THEN hist[1 + ((o.x * 7) % Len(hist))].v
          ELSE [s EXCEPT ![o.k] = IF o.k \in {"m", "s", "d", "f", "r", "o1", "o2", "set", "x", "b"} THEN o.x ELSE o.x % 2]
GInit == hist = <<>> /\ n = 0 /\ s \in {[k \in Ingredients |-> 0]}
GNext == /\ Len(hist) < MAXLEN
         /\ n' = n + 1
         /\ \E o \in {GStep(n)} : \E v \in {Vec(o)} :
              /\ s' = v
              /\ hist' = Append(hist, [v |-> v, shuffle |-> o.shuffle, again |-> o.again, proc |-> o.proc])
              /\ IF Len(hist) + 1 = MAXLEN THEN PrintT("G|" \o ToJson(hist')) ELSE TRUE
GSpec == GInit /\ [][GNext]_mvars
=============================================================================
