------------------------------- MODULE MC_Param -------------------------------
EXTENDS Param, Json
CONSTANTS CFG, VALS, LISTS, GEN, MAXLEN
VARIABLES tab, hist, cfg
mvars == <<tab, hist, cfg>>

C3 == [a |-> [t |-> "norm", a |-> 0, b |-> 1, lo |-> -1, hi |-> 1, im |-> 1, is |-> 0],
       b |-> [t |-> "fixed", a |-> 2],
       c |-> [t |-> "uniform", a |-> 0, b |-> 2, lo |-> 0, hi |-> 1, im |-> 3, is |-> 0]]
CNone == <<>>
V4 == -1..2
V5 == -2..2
Keys2 == Names(CFG) \cup {"zz"}
Lists(S, n) == UNION {[1..k -> S] : k \in 0..n}
Sets == {[kind |-> "one", keys |-> <<k>>, vals |-> <<v>>, num |-> nm] :
            k \in Keys2, v \in VALS, nm \in BOOLEAN}
        \cup {[kind |-> "many", keys |-> ks, vals |-> vs, num |-> TRUE] :
            ks \in Lists(Keys2, LISTS), vs \in Lists(VALS, LISTS)}
MInit == /\ cfg = CFG /\ hist = <<>>
         /\ tab \in {f \in [Names(CFG) -> VALS] : \A n \in Names(CFG) : InBox(f[n] * U, PriorBox(CFG[n]))}
MSet == \E o \in Sets : tab' = DoSet(cfg, tab, o) /\ hist' = IF SetOk(cfg, o) THEN <<1>> ELSE <<0>>
MSample == /\ \E f \in {f \in [Names(CFG) -> VALS] : \A n \in Names(CFG) : InBox(f[n] * U, PriorBox(CFG[n]))} :
                tab' = f
           /\ hist' = <<2>>
MInitial == /\ \E f \in {f \in [Names(CFG) -> VALS] : \A n \in Names(CFG) : InBox(f[n] * U, InitBox(CFG[n]))} :
                tab' = f
            /\ hist' = <<2>>
MNext == (MSet \/ MSample \/ MInitial) /\ UNCHANGED cfg
MSpec == MInit /\ [][MNext]_mvars

TypeOK == DOMAIN tab = Names(cfg)
(* an operation that is refused changes nothing; a sampled table is allowed    *)
PropRefused == [][hist' = <<0>> => tab' = tab]_mvars
InvSampled == hist = <<2>> => Bad(cfg, tab) = {} /\ \A n \in Names(cfg) \ Fit(cfg) : tab[n] = cfg[n].a
(* the prior is highest at its centre and does not depend on fixed parameters  *)
InvPrior == /\ LogPrior(cfg, tab) <= LogPrior(cfg, [tab EXCEPT !.a = 0])
            /\ \A v \in VALS : LogPrior(cfg, [tab EXCEPT !.b = v]) = LogPrior(cfg, tab)

(* ------------------------------------------------------------- generation *)
RE(S, h) == RandomElement(IF h >= 0 THEN S ELSE {})
GC(h) ==
  LET lo == RE(-6..3, h)
      hi == lo + RE(0..9, h)
      im == RE(-8..8, h)
      is == RE({0, 0, 1, 3}, h)
      t == RE({"fixed", "norm", "norm0", "uniform", "twohalfnorm", "free"}, h)
      e == RE(THNs, h)
      base == [lo |-> lo, hi |-> hi, im |-> im, is |-> is]
  IN CASE t = "fixed" -> [t |-> "fixed", a |-> RE(-9..9, h)]
       [] t = "norm" -> [t |-> "norm", a |-> RE(-7..7, h), b |-> RE({1, 2, 4, 5, 10}, h)] @@ base
       [] t = "norm0" -> [t |-> "norm", a |-> RE(-7..7, h), b |-> 0] @@ base
       [] t = "uniform" -> LET x == RE(-7..7, h) IN [t |-> "uniform", a |-> x, b |-> x + RE(0..6, h)] @@ base
       [] t = "twohalfnorm" -> [t |-> "twohalfnorm", a |-> RE(-5..5, h), p |-> e[1], n |-> e[2]] @@ base
       [] t = "free" -> [t |-> "free"] @@ base
GNames == <<"w_i", "B1", "a_rate", "g2", "zeta", "a0">>
GCfg(n, h) == [x \in {GNames[i] : i \in 1..n} |-> GC(h + IF x = "g2" THEN 1 ELSE 0)]
GKeys(h, n) == [i \in 1..n |-> RE(DOMAIN cfg \cup (IF RE(1..8, h + i) = 1 THEN {"zz"} ELSE {}), h + i)]
GOp(h) ==
  LET p == RE(1..20, h)
      n == RE(0..3, h)
  IN IF p <= 3 THEN [op |-> "set", kind |-> "one", keys |-> GKeys(h, 1), vals |-> <<RE(-8..8, h)>>,
                     num |-> RE({TRUE, TRUE, TRUE, FALSE}, h)]
     ELSE IF p <= 6 THEN [op |-> "set", kind |-> "many", keys |-> GKeys(h, n),
                          vals |-> [i \in 1..(IF RE(1..6, h) = 1 THEN n + 1 ELSE n) |-> RE(-8..8, h + i)],
                          num |-> TRUE]
     ELSE IF p <= 8 THEN LET S == RE(SUBSET (DOMAIN cfg \cup (IF RE(1..6, h) = 1 THEN {"zz"} ELSE {})), h)
                         IN [op |-> "setmap", m |-> [x \in S |-> RE(-8..8, h)]]
     ELSE IF p <= 10 THEN [op |-> "get", keys |-> GKeys(h, n)]
     ELSE IF p = 11 THEN [op |-> "sample"]
     ELSE IF p = 12 THEN [op |-> "sample_init"]
     ELSE IF p = 13 THEN [op |-> "reinit", seed |-> RE(1..99, h)]
     ELSE IF p = 14 THEN [op |-> "fit"]
     ELSE IF p = 15 THEN [op |-> "exist", keys |-> GKeys(h, n)]
     ELSE IF p = 16 THEN [op |-> "edge", key |-> RE(DOMAIN cfg, h), which |-> RE(1..4, h)]
     ELSE [op |-> "logprior"]
GInit == tab = <<>> /\ hist = <<>> /\ cfg = <<>>
GNext == IF cfg = <<>>
         THEN /\ \E n \in {RE(1..6, Len(hist))} : cfg' = GCfg(n, Len(hist))
              /\ UNCHANGED <<tab, hist>>
         ELSE /\ Len(hist) < MAXLEN
              /\ \E o \in {GOp(Len(hist))} :
                   /\ hist' = Append(hist, o)
                   /\ IF Len(hist) + 1 = MAXLEN
                      THEN PrintT("G|" \o ToJson([cfg |-> cfg, ops |-> Append(hist, o)])) ELSE TRUE
              /\ UNCHANGED <<tab, cfg>>
GSpec == GInit /\ [][GNext]_mvars
=============================================================================
