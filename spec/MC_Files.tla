------------------------------- MODULE MC_Files -------------------------------
EXTENDS Files, Json
CONSTANTS NAMES, OPTS, MAXLEN
VARIABLES s, hist, n
mvars == <<s, hist, n>>
Places == {"cwd", "b1", "b2"}
Pkg == [k \in {<<"pkg", "_elife.json">>} |-> 99]
GPkg == [k \in {<<"pkg", "_elife.json">>, <<"pkg", "er.json">>} |-> 99]
Refs == [place : {""} \cup Places, name : NAMES]
MInit == s = InitF(Pkg) /\ hist = <<>> /\ n = 0
MNext ==
  /\ n < MAXLEN /\ n' = n + 1
  /\ \/ \E p \in Places, f \in NAMES : s' = DoPut(s, p, f, n + 1) /\ hist' = <<"put", p>>
     \/ \E p \in Places, f \in NAMES : <<p, f>> \in DOMAIN s.fs /\ s' = DoDel(s, p, f) /\ hist' = <<"del", p>>
     \/ \E b \in {"b1", "b2"} : s' = DoBase(s, b) /\ hist' = <<"base", b>>
     \/ \E o \in OPTS, r \in Refs : s' = DoSet(s, o, r).st /\ hist' = <<"set", o>>
     \/ \E o \in OPTS, f \in NAMES :
           s' = DoBuild(s, o, [place |-> "", name |-> f]).st /\ hist' = <<"build", o>>
MSpec == MInit /\ [][MNext]_mvars
View == <<s, n>>
(* an existing path always wins; a packaged file is always found; another     *)
(* folder than url_base never matters                                         *)
InvWhere == \A f \in NAMES :
  /\ <<"cwd", f>> \in DOMAIN s.fs => Where(s, f) = "cwd"
  /\ <<"pkg", f>> \in DOMAIN s.fs => Where(s, f) # "none"
  /\ Where(s, f) \in {"b1", "b2"} => Where(s, f) = s.base
  /\ Where(s, f) # "none" => <<Where(s, f), f>> \in DOMAIN s.fs
(* options resolved to a folder stay there whatever url_base becomes          *)
PropKept == [][\A o \in DOMAIN s.opt : hist' # <<"set", o>> /\ s.opt[o].place # ""
                 => s'.opt[o] = s.opt[o]]_mvars

(* ---------------------------------------------------------------- generation *)
RE(S, h) == RandomElement(IF h >= 0 THEN S ELSE {})
GNames == {"vf_p.json", "vf_a.json", "_elife.json", "er.json", "sub/vf_b.json"}
Opts == {"fa", "fb"}
(* a packaged map is no configuration and vice versa                            *)
Vias(f) == CASE f \in {"er.json", "vf_p.json"} -> {"path", "json", "parconfig"}
             [] f = "_elife.json" -> {"path", "json", "default"}
             [] OTHER -> {"path", "json", "default", "instruct"}
GRef(h) == [place |-> RE({"", "", "", "", "cwd", "b1", "b2"}, h), name |-> RE(GNames, h)]
GOp(h) ==
  LET p == RE(1..20, h)
  IN IF p <= 6 THEN [op |-> "put", p |-> RE(Places, h), f |-> RE(GNames, h), v |-> (h % 90) + 1]
     ELSE IF p <= 9 THEN [op |-> "del", p |-> RE({"cwd", "b1"}, h), f |-> RE(GNames, h)]
     ELSE IF p <= 11 THEN [op |-> "base", b |-> RE({"b1", "b2"}, h)]
     ELSE IF p <= 15 THEN [op |-> "look", r |-> GRef(h),
                           via |-> RE({"path", "json", "default", "instruct", "parconfig"}, h)]
     ELSE IF p <= 17 THEN [op |-> "set", o |-> RE(Opts, h), r |-> GRef(h), llh |-> RE({0, 1}, h)]
     ELSE IF p <= 19 THEN [op |-> "build", o |-> RE(Opts, h), r |-> GRef(h)]
     ELSE [op |-> "clear"]
GInit == s = InitF(GPkg) /\ hist = <<>> /\ n = 0
GApply(o) == CASE o.op = "put" -> DoPut(s, o.p, o.f, o.v)
               [] o.op = "del" -> DoDel(s, o.p, o.f)
               [] o.op = "base" -> DoBase(s, o.b)
               [] o.op = "set" -> DoSet(s, o.o, o.r).st
               [] o.op = "build" -> DoBuild(s, o.o, o.r).st
               [] o.op = "clear" -> DoClear(s)
               [] OTHER -> s
GOk(o) == CASE o.op = "del" -> <<o.p, o.f>> \in DOMAIN s.fs
            [] o.op = "clear" -> n > 10
            [] o.op = "look" -> o.via \in Vias(o.r.name)
            [] o.op \in {"set", "build"} -> o.r.name \notin {"er.json", "vf_p.json"}
            [] OTHER -> TRUE
GNext == /\ Len(hist) < MAXLEN
         /\ n' = n + 1
         /\ \E o \in {GOp(n)} :
              IF GOk(o)
              THEN /\ s' = GApply(o)
                   /\ hist' = Append(hist, o)
                   /\ IF Len(hist) + 1 = MAXLEN THEN PrintT("G|" \o ToJson([ops |-> Append(hist, o)])) ELSE TRUE
              ELSE UNCHANGED <<s, hist>>
GSpec == GInit /\ [][GNext]_mvars
=============================================================================
