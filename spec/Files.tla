--------------------------------- MODULE Files ---------------------------------
(***************************************************************************)
(* Where a resource file is found: the given path itself, then the folder   *)
(* url_base, then the files packaged with appletree; and when options that  *)
(* name files are resolved.                                                 *)
(* fs : function <<place, name>> -> content, places "cwd", "b1", "b2"        *)
(* (folders) and "pkg" (packaged files, never changing)                      *)
(* opt: option -> [place, name]; place "" = still a bare name                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitF(pkg) == [fs |-> pkg, base |-> "", opt |-> <<>>]
FPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
FDel(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* place where a bare name is found; "none" if nowhere                       *)
Where(s, f) == IF <<"cwd", f>> \in DOMAIN s.fs THEN "cwd"
               ELSE IF s.base # "" /\ <<s.base, f>> \in DOMAIN s.fs THEN s.base
               ELSE IF <<"pkg", f>> \in DOMAIN s.fs THEN "pkg"
               ELSE "none"
(* a reference is [place, name]; an absolute one is found at its place only  *)
Find(s, r) == IF r.place = "" THEN Where(s, r.name)
              ELSE IF <<r.place, r.name>> \in DOMAIN s.fs THEN r.place ELSE "none"
(* what a resolution keeps: a name found in the working directory stays a    *)
(* name, anything else becomes the absolute path                             *)
Kept(s, r) == IF r.place # "" THEN r
              ELSE IF Where(s, r.name) = "cwd" THEN r
              ELSE [place |-> Where(s, r.name), name |-> r.name]
Content(s, r) == s.fs[<<Find(s, r), r.name>>]

DoPut(s, p, f, v) == [s EXCEPT !.fs = FPut(@, <<p, f>>, v)]
DoDel(s, p, f) == [s EXCEPT !.fs = FDel(@, <<p, f>>)]
DoBase(s, b) == [s EXCEPT !.base = b]
(* setting an option resolves now; nothing is set when nothing is found      *)
DoSet(s, o, r) == IF Find(s, r) = "none" THEN [st |-> s, err |-> "RuntimeError"]
                  ELSE [st |-> [s EXCEPT !.opt = FPut(@, o, Kept(s, r))], err |-> ""]
(* building resolves what is in force: the explicit value or the default,    *)
(* which from then on is the value of the option                             *)
DoBuild(s, o, dflt) ==
  LET r == IF o \in DOMAIN s.opt THEN s.opt[o] ELSE dflt
  IN IF Find(s, r) = "none" THEN [st |-> s, err |-> "error", v |-> 0]
     ELSE [st |-> [s EXCEPT !.opt = FPut(@, o, Kept(s, r))], err |-> "", v |-> Content(s, r)]
DoClear(s) == [s EXCEPT !.opt = <<>>, !.base = ""]
=============================================================================
