------------------------------ MODULE MC_Options ------------------------------
EXTENDS Options, Json
CONSTANTS KINDS, DFLT, LLHS, MAXLEN, VALS
VARIABLES s, hist, n, world
mvars == <<s, hist, n, world>>

V(t, k) == CASE t = "num" -> [t |-> "num", v |-> k]
             [] t = "l5" -> [t |-> "l5", m |-> k]
             [] t = "str" -> [t |-> "str", v |-> k]
             [] t = "l3" -> [t |-> "l3", m |-> k, l |-> k - 1, u |-> k + 2]
             [] t = "l4" -> [t |-> "l4", m |-> k, l |-> k - 1, u |-> k + 2, p |-> "pa"]
Types(kind) == CASE kind = "const" -> {"num"} [] kind = "map" -> {"str"}
                 [] kind = "sigma" -> {"str", "l3", "l4", "l5"} [] OTHER -> {"num", "str"}
(* ------------------------------------------------------------ exhaustive *)
KS == [ca |-> "const", sa |-> "sigma", zz |-> "none"]
DS == [ca |-> V("num", 1), sa |-> <<>>, zz |-> <<>>]
KT == [ca |-> "const", ma |-> "map", sa |-> "sigma", zz |-> "none"]
DT == [ca |-> <<>>, ma |-> V("str", 2), sa |-> V("l3", 2), zz |-> <<>>]
Vs(o) == {V(t, k) : t \in Types(KINDS[o]), k \in VALS}
OptSeqs == {<<"sa">>, <<"ca", "sa">>, <<"sa", "ca">>}
MInit == s = InitO /\ hist = <<>> /\ n = 0 /\ world = <<>>
MNext ==
  /\ n < MAXLEN /\ n' = n + 1 /\ world' = world
  /\ \/ \E o \in DOMAIN KINDS, v \in UNION {Vs(o) : o \in DOMAIN KINDS} :
           /\ v \in Vs(o)
           /\ s' = DoSet(s, o, [kind |-> "s", v |-> v]) /\ hist' = <<"set", o>>
     \/ \E o \in {"sa"}, v \in Vs("sa"), S \in SUBSET LLHS :
           s' = DoSet(s, o, [kind |-> "d", m |-> [x \in S |-> v]]) /\ hist' = <<"set", o>>
     \/ \E os \in OptSeqs, llh \in LLHS :
           /\ ~Conflict(s, KINDS, DFLT, os, llh)
           /\ s' = DoBuild(s, KINDS, DFLT, n, os, llh).st /\ hist' = <<"build", os>>
     \/ s' = DoClear(s) /\ hist' = <<"clear">>
MSpec == MInit /\ [][MNext]_mvars
View == <<s, n>>
(* what was compiled never changes; what was set is not replaced by a default    *)
PropFrozen == [][\A c \in DOMAIN s.comp : c \in DOMAIN s'.comp /\ s'.comp[c] = s.comp[c]]_mvars
PropSet == [][\A o \in DOMAIN s.cache : hist' \notin {<<"set", o>>, <<"clear">>}
                 => o \in DOMAIN s'.cache /\ s'.cache[o] = s.cache[o]]_mvars
(* the option nobody takes never leaves the report                               *)
InvUnused == /\ Unused(s) \subseteq MaybeUnused(s)
             /\ "zz" \in DOMAIN s.cache => "zz" \in Unused(s)
PropRead == [][s'.read \subseteq s.read \/ hist'[1] = "build"]_mvars
(* a shift by +-1 reaches the upper and lower map, 0 the median                  *)
ASSUME \A m, l, u \in 1..3, x \in 0..2 :
  LET v == [t |-> "l3", m |-> m, l |-> l, u |-> u]
      at(k) == Value2("sigma", "sa", v, x, [sa_sigma |-> k])
  IN at(0) = 2 * m * (10 + x) /\ at(2) = 2 * u * (10 + x) /\ at(-2) = 2 * l * (10 + x)

(* ---------------------------------------------------------------- generation *)
RE(S, h) == RandomElement(IF h >= 0 THEN S ELSE {})
GV(kind, h, good) ==
  LET t == IF kind = "sigma" /\ ~good
           THEN RE({"str", "l3", "l4", IF RE(1..6, h) = 1 THEN RE({"l5", "num"}, h) ELSE "l4"}, h)
           ELSE RE(Types(kind) \ {"l5"}, h)
  IN CASE t \in {"num", "str"} -> [t |-> t, v |-> RE(1..9, h)]
       [] t = "l5" -> [t |-> t, m |-> RE(1..9, h)]
       [] t = "l3" -> [t |-> t, m |-> RE(3..6, h), l |-> RE(1..5, h), u |-> RE(4..9, h)]
       [] t = "l4" -> [t |-> t, m |-> RE(3..6, h), l |-> RE(1..5, h), u |-> RE(4..9, h),
                       p |-> RE({"pa", "pb"}, h)]
GK == [ca |-> "const", ma |-> "map", sa |-> "sigma", sb |-> "sigma", zz |-> "none"]
GLLH == {"la", "lb", "lc"}
GWorld(h) == [dflt |-> [o \in DOMAIN GK |-> IF GK[o] = "none" \/ RE(1..4, h) = 1 THEN <<>>
                                            ELSE GV(GK[o], h, TRUE)]]
GOpts(h) == RE({<<"sa">>, <<"sb">>, <<"ca", "sa">>, <<"sa", "ma">>, <<"sb", "sa">>, <<"ma">>,
               <<"sa", "sb", "ca">>, <<"ca">>}, h)
GTab(h) == LET S == RE({{"pa", "pb", "sa_sigma", "sb_sigma"}, {"pa", "pb", "sa_sigma", "sb_sigma"},
                        {"pa", "pb", "sa_sigma", "sb_sigma", "other"}, {"pa", "sa_sigma"}}, h)
           IN [p \in S |-> RE(-5..5, h)]
GOp(h) ==
  LET p == RE(1..20, h)
  IN IF p <= 5 THEN LET o == RE({"ca", "ma", "sa", "sb", "sa", "sb", "zz"}, h)
                    IN [op |-> "set", o |-> o,
                        c |-> IF RE(1..2, h) = 1 THEN [kind |-> "s", v |-> GV(GK[o], h, FALSE)]
                              ELSE [kind |-> "d", m |-> LET S == RE({GLLH, GLLH, {"la"}, {"la", "lc"}, {}}, h)
                                                        IN [x \in S |-> GV(GK[o], h, FALSE)]]]
     ELSE IF p <= 11 THEN [op |-> "build", id |-> h + 1, os |-> GOpts(h), llh |-> RE(GLLH, h)]
     ELSE IF p <= 16 THEN [op |-> "sim", id |-> RE(1..(h + 1), h), x |-> RE(0..10, h), tab |-> GTab(h)]
     ELSE IF p <= 19 THEN [op |-> "report"]
     ELSE [op |-> "clear"]
GInit == s = InitO /\ hist = <<>> /\ n = 0 /\ world = <<>>
GApply(o) == CASE o.op = "set" -> DoSet(s, o.o, o.c)
               [] o.op = "build" -> DoBuild(s, GK, world.dflt, o.id, o.os, o.llh).st
               [] o.op = "clear" -> DoClear(s)
               [] OTHER -> s
GOk(o) == CASE o.op = "build" -> ~Conflict(s, GK, world.dflt, o.os, o.llh)
            [] o.op = "sim" -> o.id \in DOMAIN s.comp
            [] o.op = "clear" -> n > 8
            [] OTHER -> TRUE
GNext ==
  IF world = <<>> THEN (\E w \in {GWorld(n)} : world' = w) /\ UNCHANGED <<s, hist, n>>
  ELSE /\ Len(hist) < MAXLEN
       /\ n' = n + 1 /\ world' = world
       /\ \E o \in {GOp(n)} :
            IF GOk(o)
            THEN /\ s' = GApply(o)
                 /\ hist' = Append(hist, o)
                 /\ IF Len(hist) + 1 = MAXLEN
                    THEN PrintT("G|" \o ToJson([dflt |-> world.dflt, ops |-> Append(hist, o)])) ELSE TRUE
            ELSE UNCHANGED <<s, hist>>
GSpec == GInit /\ [][GNext]_mvars
=============================================================================
