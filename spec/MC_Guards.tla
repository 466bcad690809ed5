------------------------------- MODULE MC_Guards -------------------------------
EXTENDS Guards, Json
CONSTANTS NAMES, MODS, IDS, MAXLEN
VARIABLES s, hist, n
mvars == <<s, hist, n>>
(* ------------------------------------------------------------ exhaustive *)
(* one name space, modules with up to two classes, forced or not                 *)
Cls == [n : NAMES, id : IDS, k : {"plugin", "component"}]
Seqs == {<<a>> : a \in Cls} \cup {<<a, b>> : a \in Cls, b \in Cls}
Distinct(c) == \A i, j \in DOMAIN c : i # j => c[i].n # c[j].n
MInit == s = Empty /\ hist = <<>> /\ n = 0
Ext(m, c, force) ==
  /\ LET err == ExtErr(s, m, c, "plugin", force)
         new == Over([x \in {m} |-> 0], AddedIds(c, "plugin"))
     IN IF err = "" THEN s' = Over(s, new)
        (* a refusal may have registered some of the others                        *)
        ELSE IF m \in DOMAIN s THEN s' = s
        ELSE \E part \in SUBSET (DOMAIN new \ DOMAIN s) : s' = Over(s, [x \in part |-> new[x]])
  /\ hist' = <<m, c, force>>
MNext == n < MAXLEN /\ n' = n + 1 /\ \E m \in MODS, c \in Seqs, f \in {TRUE, FALSE} : Distinct(c) /\ Ext(m, c, f)
MSpec == MInit /\ [][MNext]_mvars
View == <<s, n>>
PropKept == [][~hist'[3] => \A x \in DOMAIN s : x \in DOMAIN s' /\ s'[x] = s[x]]_mvars
PropOk == [][ExtOk(s, hist'[1], 0, hist'[2], "plugin", hist'[3], s')]_mvars
PropForce == [][hist'[3] => ExtErr(s, hist'[1], hist'[2], "plugin", TRUE) = ""]_mvars
InvPlugins == \A x \in DOMAIN s : x \in MODS \cup NAMES

(* ---------------------------------------------------------------- generation *)
RE(S, h) == RandomElement(IF h >= 0 THEN S ELSE {})
GCls(nm, h) == [n |-> nm, id |-> 0, k |-> RE({"plugin", "plugin", "component", "component", "base", "other"}, h)]
GNames(h) == RE({<<"Aa">>, <<"Bb">>, <<"Aa", "Cc">>, <<"Bb", "Dd">>, <<"Cc", "Aa", "Ee">>, <<"Ff">>, <<"Gg", "Hh">>}, h)
Force(h) == RE({TRUE, FALSE, FALSE}, h)
Base(h) == RE({"plugin", "component"}, h)
OptSet(h) == RE({{}, {}, {"oa"}, {"ob"}, {"oa", "ob"}}, h)
GPlug(S, h) == [op |-> "register", prov |-> RE({{"da"}, {"db"}, {"da", "db"}, {"dc"}, {"db", "dc"}}, h),
                opts |-> [x \in S |-> RE({1, 1, 1, 2}, h)], list |-> RE({TRUE, FALSE}, h)]
Layer(h) == RE({<<"ta">>, <<"tb">>, <<"ta", "tc">>, <<"td">>, <<"te">>, <<"tf">>, <<"tg", "tb">>}, h)
Arg(h) == RE({<<"key", "parameters">>, <<"key", "parameters">>, <<"key", "parameters">>, <<"parameters", "key">>, <<"seed", "parameters">>}, h)
DepArg(h) == RE({<<>>, <<"da">>, <<"da", "db">>, <<"db", "da">>, <<"da", "db", "dc">>}, h)
GOp(h) ==
  LET p == RE(1..14, h)
  IN CASE p <= 4 -> LET ns == GNames(h)
                    IN [op |-> "ext", m |-> RE({"vm1", "vm2", "vm3", "vm4"}, h), force |-> Force(h), base |-> Base(h), ns |-> ns]
       [] p = 5 -> [op |-> "one", ns |-> <<RE({"Aa", "Bb", "Cc", "Dd", "Ee"}, h)>>, force |-> Force(h), base |-> Base(h)]
       [] p <= 9 -> [op |-> "register"]
       [] p = 10 -> [op |-> "providers"]
       [] p = 11 -> [op |-> "takes", layers |-> [i \in 1..RE(1..3, h) |-> IF RE(1..12, h) = 1 THEN <<"nonsense">> ELSE Layer(h)],
                     sub |-> RE({TRUE, FALSE}, h)]
       [] p = 12 -> LET d == DepArg(h) IN [op |-> "plug", deps |-> d, prov |-> IF RE(1..8, h) = 1 THEN <<>> ELSE <<"dz">>]
       [] p = 13 -> [op |-> "default", dict |-> RE({TRUE, FALSE}, h), cls |-> RE({"Constant", "Map", "SigmaMap", "ConstantSet"}, h)]
       [] OTHER -> [op |-> "comp", fixed |-> RE({TRUE, FALSE}, h), file |-> RE({TRUE, FALSE}, h),
                    bt |-> RE({"irreg", "meshgrid", "none", "square", "regbin"}, h)]
Fill(o, S, h) ==
  CASE o.op \in {"ext", "one"} -> [op |-> o.op, m |-> IF o.op = "ext" THEN o.m ELSE "", force |-> o.force, base |-> o.base,
                                   cls |-> [i \in DOMAIN o.ns |-> GCls(o.ns[i], h)]]
    [] o.op = "register" -> GPlug(S, h)
    [] o.op = "plug" -> [op |-> "plug", deps |-> o.deps, prov |-> o.prov,
                         args |-> Arg(h) \o IF RE(1..3, h) < 3 THEN o.deps ELSE DepArg(h)]
    [] OTHER -> o
GInit == s = Empty /\ hist = <<>> /\ n = 0
GNext == /\ Len(hist) < MAXLEN
         /\ n' = n + 1
         /\ \E o \in {GOp(n)} : \E S \in {OptSet(n)} : \E x \in {Fill(o, S, n)} :
              /\ hist' = Append(hist, x)
              /\ s' = s
              /\ IF Len(hist) + 1 = MAXLEN THEN PrintT("G|" \o ToJson(hist')) ELSE TRUE
GSpec == GInit /\ [][GNext]_mvars
=============================================================================
