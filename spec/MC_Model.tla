------------------------------- MODULE MC_Model -------------------------------
EXTENDS Model, Json
CONSTANTS PARS, MAXCOMP, MAXLEN
VARIABLES world, built, acc, hist
mvars == <<world, built, acc, hist>>

(* ---------------------------------------------------------------- design *)
(* one likelihood, components registered one after the other                *)
CNames == <<"er", "nr">>
Aliases == {f \in UNION {[S -> PARS \cup {"er_rate"}] : S \in SUBSET {"A", "B"}} :
               \A a, b \in DOMAIN f : a # b => f[a] # f[b]}
MCComps(i) == {[name |-> CNames[i], fixed |-> fx, pars |-> p, sigma |-> s, m |-> 1] :
               fx \in BOOLEAN, p \in {<<>>} \cup {<<x>> : x \in PARS}
                                 \cup {<<x, y>> : x, y \in PARS}, s \in {"", "sig"}}
MInit == /\ world \in {[name |-> "l", alias |-> a, copies |-> <<>>, n |-> 1, comps |-> <<>>] : a \in Aliases}
         /\ acc = {} /\ built = 0 /\ hist = <<>>
MNext == /\ built < MAXCOMP
         /\ \E c \in MCComps(built + 1) :
              /\ world' = [world EXCEPT !.comps = Append(@, c)]
              /\ acc' = Accumulate(world, acc, c)
         /\ built' = built + 1 /\ hist' = hist
MSpec == MInit /\ [][MNext]_mvars
(* accumulating and closing agree; an aliased internal name is never asked for *)
InvNeeds == acc = LlhNeeds(world)
InvAlias == \A k \in DOMAIN world.alias : world.alias[k] \notin acc
(* a table with exactly the needed names is enough, and any smaller one is not *)
InvEnough == LET t == [p \in acc |-> 1]
             IN /\ Missing(world, t) = {}
                /\ \A p \in acc : Missing(world, [q \in acc \ {p} |-> 1]) # {}

(* ---------------------------------------------------------------- generation *)
RE(S, h) == RandomElement(IF h >= 0 THEN S ELSE {})
GPars == {"p1", "p2", "p3", "q_y", "w"}
Distinct(n, S, h) == LET f == RE({g \in [1..n -> S] : \A i, j \in 1..n : i # j => g[i] # g[j]}, h)
                     IN [i \in 1..n |-> f[i]]
GComp(nm, h) ==
  LET fx == RE(1..4, h) = 1
      n == RE(0..3, h)
  IN [name |-> nm, fixed |-> fx, pars |-> IF fx THEN <<>> ELSE Distinct(n, GPars, h),
      sigma |-> IF fx THEN "" ELSE RE({"", "", "auto", "s_x", "p1"}, h), m |-> RE(1..4, h)]
GAlias(nm, h) ==
  LET S == RE(SUBSET {"al1", "al2", "al3"}, h)
      T == GPars \cup {nm \o "0_rate", "s_x"}
  IN RE({f \in [S -> T] : \A a, b \in S : a # b => f[a] # f[b]}, h)
GLlh(i, h) ==
  LET nm == <<"er", "nr", "ac">>[i]
      k == RE(1..3, h)
  IN [name |-> nm \o "_llh", alias |-> IF RE(1..2, h) = 1 THEN GAlias(nm, h) ELSE <<>>,
      copies |-> <<>>, n |-> RE(0..9, h),
      comps |-> [j \in 1..k |-> GComp(nm \o ToString(j - 1), h + j)]]
GWorld(h) == LET k == RE({1, 1, 2, 2, 3}, h) IN [i \in 1..k |-> GLlh(i, h + i)]
GInit == world = <<>> /\ built = 0 /\ acc = {} /\ hist = <<>>
GNext == /\ built = 0
         /\ \E w \in {GWorld(built)} :
              /\ world' = w
              /\ PrintT("G|" \o ToJson([llhs |-> w]))
         /\ built' = 1 /\ UNCHANGED <<acc, hist>>
GSpec == GInit /\ [][GNext]_mvars
=============================================================================
