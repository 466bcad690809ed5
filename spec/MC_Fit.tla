-------------------------------- MODULE MC_Fit --------------------------------
EXTENDS Fit, Json
CONSTANTS PTS, FILES, MAXLEN, CTX, FOCUS
VARIABLES s, hist, n
mvars == <<s, hist, n>>
(* ------------------------------------------------------------ exhaustive      *)
(* two walkers; a fit adds one or two rows whose points come from PTS            *)
RowsOf(start) == {r \in [1..2 -> PTS] : TRUE}
MInit == s = InitFit /\ hist = <<>> /\ n = 0
New(c, f) == c \notin DOMAIN s.ctx /\ s' = DoNew(s, c, f) /\ hist' = <<"new", c>>
Owner(f) == {c \in DOMAIN s.ctx : s.ctx[c].file = f}
FitOp(c) == \E r1 \in RowsOf(<<>>), two \in {TRUE, FALSE}, ok \in {TRUE, FALSE} :
              /\ s' = Added(s, c, "fit", IF two THEN <<r1, r1>> ELSE <<r1>>, ok, 5)
              /\ hist' = <<"fit", c>>
ContOp(c, src) == \E p \in PTS, ok \in {TRUE, FALSE} :
              /\ Rows(s, src) # <<>> /\ (c = src \/ s.ctx[c].file = "" \/ Rows(s, c) = <<>>)
              /\ LET st == Start(s, c, src)
                     r == <<st[1], p>>
                 IN s' = Added(s, c, "cont", <<r>>, ok, 7)
              /\ hist' = <<"cont", c, src>>
MNext ==
  /\ n < MAXLEN /\ n' = n + 1
  /\ \/ \E c \in CTX, f \in FILES \cup {""} : (f # "" => Owner(f) = {}) /\ New(c, f)
     \/ \E c \in DOMAIN s.ctx : FitOp(c)
     \/ \E c, d \in DOMAIN s.ctx : ContOp(c, d)
     \/ \E c \in CTX, f \in DOMAIN s.files, g \in FILES :
          /\ c \notin DOMAIN s.ctx /\ s.files[f].meta.ok /\ (g # f => g \notin DOMAIN s.files /\ Owner(g) = {})
          /\ s' = DoReload(s, c, f, g) /\ hist' = <<"reload", c, f, g>>
MSpec == MInit /\ [][MNext]_mvars
View == <<s, n>>
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
(* only fitting the owner again ever removes rows from a file                     *)
PropGrow == [][\A f \in DOMAIN s.files :
                 /\ f \in DOMAIN s'.files
                 /\ ~(hist'[1] = "fit" /\ s.ctx[hist'[2]].file = f) => IsPrefix(s.files[f].rows, s'.files[f].rows)]_mvars
PropOthers == [][\A c \in DOMAIN s.ctx : hist'[1] \in {"fit", "cont"} /\ s.ctx[hist'[2]].file # s.ctx[c].file
                   => Rows(s', c) = Rows(s, c)]_mvars
PropReload == [][hist'[1] = "reload" => Rows(s', hist'[2]) = s.files[hist'[3]].rows]_mvars
PropContinue == [][hist'[1] = "cont" =>
                    LET new == Rows(s', hist'[2]) IN Last(new)[1] = Last(Rows(s, hist'[3]))[1]]_mvars
InvThin == \A c \in DOMAIN s.ctx : Rows(s, c) # <<>> => /\ Thin(Rows(s, c), 0, 1) = Rows(s, c)
                                                        /\ Best(Rows(s, c), [p \in PTS |-> p]) # {}

(* ---------------------------------------------------------------- generation    *)
RE(S, h) == RandomElement(IF h >= 0 THEN S ELSE {})
GCfg(h) == [pa |-> RE({"free", "uniform"}, h), pb |-> RE({"free", "uniform", "fixed"}, h), pc |-> "fixed",
            pd |-> RE({"free", "fixed"}, h), rate |-> RE({"free", "fixed"}, h)]
GWorld(h) == [cfg |-> GCfg(h), alias |-> RE({TRUE, FALSE}, h), copy |-> RE({TRUE, FALSE}, h),
              how |-> RE({"dict", "file", "explicit"}, h), fc |-> RE(1..9, h)]
Fs == {"fa", "fb", "fc", "fd"}
Free == {f \in Fs : f \notin DOMAIN s.files /\ Owner(f) = {}}
Live == {c \in DOMAIN s.ctx : s.ctx[c].live}
Fitted == {c \in Live : Rows(s, c) # <<>>}
Mode(h) == RE({"free", "free", "hold"}, h)
(* kind of the next operation: numbers weigh the kinds, FOCUS chooses the weights    *)
Roll(h) == LET q == RE(1..10, h)
           IN IF FOCUS = "post" /\ q > 6 THEN RE(16..24, h)
              ELSE IF FOCUS = "reload" /\ q > 5 THEN RE({14, 15, 15, 22, 22, 22, 10}, h)
              ELSE RE(1..24, h)
GOp(h) ==
  LET p == Roll(h)
      id == h + 1
  IN IF p <= 2 \/ Live = {} THEN [op |-> "new", c |-> id, f |-> RE({""} \cup Free, h)]
     ELSE IF p <= 7 THEN [op |-> "fit", c |-> RE(Live, h), nw |-> RE({10, 12}, h), it |-> RE(1..4, h), mode |-> Mode(h),
                          fail |-> RE({0, 0, 0, 0, 17, 25}, h), batch |-> RE({3, 8}, h), rep |-> RE({1, 1, 2}, h)]
     ELSE IF Fitted = {} THEN [op |-> "skip"]
     ELSE IF p <= 13 THEN [op |-> "cont", c |-> RE(Live, h), src |-> RE(Fitted, h), same |-> RE({TRUE, TRUE, FALSE}, h),
                           it |-> RE(1..4, h), mode |-> Mode(h), fail |-> RE({0, 0, 0, 0, 9, 22}, h), batch |-> RE({3, 8}, h),
                           rep |-> RE({1, 1, 2}, h), none |-> RE({TRUE, FALSE}, h)]
     ELSE IF p <= 15 THEN [op |-> "reload", c |-> id, src |-> RE(Live, h), rename |-> RE({TRUE, FALSE}, h), g |-> RE(Free \cup {""}, h)]
     ELSE IF p <= 20 THEN [op |-> "post", c |-> RE(Fitted, h), which |-> RE({"mpe", "mpe", "median", "random", "best"}, h)]
     ELSE IF p = 21 THEN [op |-> "dump", c |-> RE(Fitted, h)]
     ELSE IF p = 22 THEN [op |-> "meta", c |-> RE(Fitted, h)]
     ELSE IF p = 23 THEN [op |-> "all", c |-> RE(Fitted, h), flat |-> RE({TRUE, FALSE}, h), d |-> RE({0, 1}, h), t |-> RE({1, 2}, h)]
     ELSE [op |-> "template", c |-> RE(Fitted, h), batch |-> RE({2, 5}, h), seed |-> RE(0..3, h)]
(* a row of the generator only has a length (number of walkers)                     *)
GRows(k, nw) == [i \in 1..k |-> [w \in 1..nw |-> 0]]
NW(c) == Len(Last(Rows(s, c)))
Norm(o) == IF o.op = "cont" /\ o.same /\ o.c \in Fitted THEN [o EXCEPT !.src = o.c]
           ELSE IF o.op = "reload" /\ ~o.rename THEN [o EXCEPT !.g = s.ctx[o.src].file] ELSE o
GOk(o) ==
  CASE o.op = "skip" -> FALSE
    [] o.op = "cont" -> /\ (o.c # o.src => s.ctx[o.c].file # s.ctx[o.src].file \/ s.ctx[o.c].file = "")
                        /\ (o.c # o.src /\ Rows(s, o.c) # <<>> => NW(o.c) = NW(o.src))
                        (* an empty chain in a file cannot be continued *)
                        /\ (s.ctx[o.c].file \in DOMAIN s.files => s.files[s.ctx[o.c].file].rows # <<>>)
    [] o.op = "reload" -> /\ s.ctx[o.src].file \in DOMAIN s.files /\ s.files[s.ctx[o.src].file].meta.ok
                          /\ s.files[s.ctx[o.src].file].rows # <<>> /\ (o.rename => o.g # "")
                          /\ s.ctx[o.src].open
    [] o.op = "meta" -> s.ctx[o.c].file # "" /\ s.files[s.ctx[o.c].file].meta.ok /\ s.ctx[o.c].clean
    [] o.op = "fit" -> TRUE
    [] OTHER -> TRUE
GStamp(x, c, clean) == [x EXCEPT !.ctx = [y \in DOMAIN @ |->
     IF y = c THEN [file |-> @[y].file, rows |-> @[y].rows, open |-> @[y].open, live |-> TRUE, clean |-> clean] ELSE @[y]]]
(* how many rows a failing run leaves is known only afterwards: contexts are not     *)
(* used any more after a failure, unless they are fitted again                        *)
GApply(o) ==
  CASE o.op = "new" -> GStamp(DoNew(s, o.c, o.f), o.c, TRUE)
    [] o.op = "fit" -> GStamp(Added(s, o.c, "fit", IF o.fail > 0 THEN <<>> ELSE GRows(o.it, o.nw), o.fail = 0, o.batch), o.c, o.fail = 0)
    [] o.op = "cont" -> GStamp(Added(s, o.c, "cont", GRows(IF o.fail > 0 THEN 0 ELSE o.it, NW(o.src)), o.fail = 0, o.batch), o.c, o.fail = 0)
    [] o.op = "reload" ->
         LET x == GStamp(DoReload(s, o.c, s.ctx[o.src].file, o.g), o.c, s.ctx[o.src].clean)
         IN IF o.rename THEN x ELSE [x EXCEPT !.ctx[o.src].live = FALSE]
    [] OTHER -> s
GInit == s = InitFit /\ hist = <<>> /\ n = 0
GNext ==
  IF hist = <<>> THEN (\E w \in {GWorld(n)} : hist' = <<w>>) /\ UNCHANGED <<s, n>>
  ELSE /\ Len(hist) < MAXLEN
       /\ n' = n + 1
       /\ \E o0 \in {GOp(n)} : \E o \in {Norm(o0)} :
            IF GOk(o)
            THEN /\ s' = GApply(o)
                 /\ hist' = Append(hist, o)
                 /\ IF Len(hist) + 1 = MAXLEN THEN PrintT("G|" \o ToJson([world |-> hist[1], ops |-> Tail(Append(hist, o))])) ELSE TRUE
            ELSE UNCHANGED <<s, hist>>
GSpec == GInit /\ [][GNext]_mvars
=============================================================================
