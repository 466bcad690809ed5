-------------------------------- MODULE MC_Hist --------------------------------
(* Design checks of Hist and generation of behaviours.                        *)
EXTENDS Hist, TLC, Json, Randomization

CONSTANTS M, MAXN
VARIABLES q, a, n, hist
hvars == <<q, a, n, hist>>

(* ------------------------------------------------------------ exhaustive checks *)
RECURSIVE SortSeq2(_)
SortSeq2(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN <<p>> \o SortSeq2(S \ {p})
(* every pair of strictly increasing rows over 0..M as x edges and y rows, every *)
(* point of a larger square                                                     *)
Inc(S) == {s \in UNION {[1..k -> S] : k \in 2..4} : \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]}
Rows(S, k) == {s \in [1..k -> S] : \A i \in 1..(k - 1) : s[i] < s[i + 1]}
EInit == /\ q \in {"irreg1", "mesh1", "irreg2", "mesh2", "equi", "equi2"}
         /\ a = <<>> /\ n = 0 /\ hist = <<>>
EPick ==
  /\ n = 0 /\ n' = 1 /\ hist' = hist /\ q' = q
  /\ CASE q = "irreg1" -> \E e \in Inc(0..M) : a' = [b |-> [kind |-> "irreg", den |-> <<1, 1>>, x |-> e, y |-> <<>>]]
       [] q = "mesh1" -> \E e \in Inc(0..M) : a' = [b |-> [kind |-> "mesh", den |-> <<1, 1>>, x |-> e, y |-> <<>>]]
       [] q = "irreg2" -> \E e \in Rows(0..2, 3), r, s \in Rows(0..M, 3) :
                             a' = [b |-> [kind |-> "irreg", den |-> <<1, 1>>, x |-> e, y |-> <<r, s>>]]
       [] q = "mesh2" -> \E e \in Rows(0..M, 3), r \in Rows(0..M, 3) :
                             a' = [b |-> [kind |-> "mesh", den |-> <<1, 1>>, x |-> e, y |-> <<r>>]]
       [] q = "equi" -> \E S \in SUBSET (1..MAXN), k \in 1..4 :
                             /\ Cardinality(S) > k
                             /\ a' = [s |-> SortInts(S), k |-> k]
       [] q = "equi2" -> \E w \in {"id", "rev", "mul"}, k, l \in 1..3, c \in 8..11 :
                             a' = [pts |-> [i \in 1..c |-> <<i, CASE w = "id" -> i [] w = "rev" -> 12 - i
                                                                 [] w = "mul" -> (5 * i) % 13>>],
                                   k |-> k, l |-> l]
ENext == EPick
ESpec == EInit /\ [][ENext]_hvars

Square(b) == IF Dim(b) = 1 THEN {<<x>> : x \in -1..(M + 1)}
             ELSE {<<x, y>> : x \in -1..(M + 1), y \in -1..(M + 1)}
IsBins == n = 1 /\ q \in {"irreg1", "mesh1", "irreg2", "mesh2"}
(* a point lies in at most one cell; in the half-open range in exactly one      *)
InvPartition ==
  IsBins => \A p \in Square(a.b) :
    LET C == {c \in 1..NCells(a.b) : InCell(a.b, c, p)}
    IN /\ Cardinality(C) <= 1
       /\ (a.b.kind = "mesh" =>
            ((C # {}) <=> /\ a.b.x[1] <= p[1] /\ p[1] <= a.b.x[Len(a.b.x)]
                          /\ Dim(a.b) = 2 => /\ a.b.y[1][1] <= p[2]
                                             /\ p[2] <= a.b.y[1][Len(a.b.y[1])]))
       /\ (a.b.kind = "irreg" /\ Dim(a.b) = 1 =>
            ((C # {}) <=> a.b.x[1] < p[1] /\ p[1] <= a.b.x[Len(a.b.x)]))
(* searching the insertion point finds the same cell                            *)
InvSearch ==
  IsBins /\ a.b.kind = "irreg" =>
    \A p \in Square(a.b) : \A c \in 1..NCells(a.b) : InCell(a.b, c, p) <=> CellBySearch(a.b, p) = c
(* nothing is counted twice or lost: total weight = weight of the points in range *)
InvMass ==
  IsBins => LET pts == SortSeq2(Square(a.b))
                w == [i \in DOMAIN pts |-> i % 5]
                h == HistOf(a.b, pts, w)
            IN SumRaw(h) = SumW([i \in DOMAIN pts |->
                 IF \E c \in 1..NCells(a.b) : InCell(a.b, c, pts[i]) THEN w[i] ELSE 0])
(* equal numbers of distinct values in every bin, up to one                     *)
InvEqui ==
  n = 1 /\ q = "equi" =>
    LET e == EquiEdges(a.s, a.k, 0, MAXN + 1)
        b == [kind |-> "irreg", den |-> <<a.k, 1>>, x |-> e, y |-> <<>>]
        pts == [i \in DOMAIN a.s |-> <<a.s[i]>>]
        h == HistOf(b, pts, Ones(pts))
    IN /\ \A i \in 1..(Len(e) - 1) : e[i] < e[i + 1]
       /\ SumRaw(h) = Len(a.s)
       /\ \A i, j \in DOMAIN h : Abs(h[i] - h[j]) <= 1
InvEqui2 ==
  n = 1 /\ q = "equi2" /\ Len(a.pts) >= a.k * (a.l + 2) =>
    LET b == EquiBins2(a.pts, a.k, a.l, <<<<0, 20>>, <<-1, 20>>>>)
        h == HistOf(b, a.pts, Ones(a.pts))
    IN /\ SumRaw(h) = Len(a.pts)
       /\ \A i, j \in DOMAIN h : Abs(h[i] - h[j]) <= 3


(* ---------------------------------------------------------------- generation *)
RE(S, h) == RandomElement(IF h >= 0 THEN S ELSE {})
RS(k, S, h) == RandomSubset(k, IF h >= 0 THEN S ELSE {})
Edges(k, S, h) == SortInts(RS(k, S, h))
GNorm(h) == RE({"on_pdf", "on_sim"}, h)
GComp(i, h) == LET fx == RE(1..4, h) = 1
               IN [norm |-> IF RE(1..25, h) = 1 THEN "bad" ELSE GNorm(h),
                   eps |-> RE(1..3, h) > 1, fixed |-> fx,
                   boot |-> IF ~fx /\ RE(1..3, h) = 1 THEN RE(1..20, h) ELSE 0]
GPts(k, d, h) == [i \in 1..k |-> IF d = 1 THEN <<RE(0..30, h)>>
                                 ELSE <<RE(0..30, h), RE(0..30, h)>>]
GRate(h) == LET r == RE(1..20, h)
            IN CASE r = 1 -> 0 [] r = 2 -> -3 [] r = 3 -> 99999 [] r = 4 -> 99998
                 [] OTHER -> RE(1..20, h)
GEff(k, h) == LET z == RE(1..8, h)
              IN [i \in 1..k |-> IF z = 1 THEN 0 ELSE IF z = 2 THEN 4 ELSE RE(0..5, h)]
(* events of every component for one evaluation *)
GOp(comps, d, h) ==
  LET b == RE({1, 4, 9, 12}, h)
  IN [op |-> RE({"hist", "weighted"}, h), batch |-> b,
      comps |-> [i \in DOMAIN comps |->
                  [pts |-> IF comps[i].fixed THEN <<>> ELSE GPts(b, d, h),
                   eff |-> IF comps[i].fixed THEN <<>> ELSE GEff(b, h),
                   rate |-> GRate(h)]]]
GData(t, d, cnt, h) ==
  CASE t = "equi" -> LET xs == Edges(cnt, 3..36, h)
                         c == RE(1..36, h)
                         o == RE(0..36, h)
                     IN [i \in 1..cnt |-> IF d = 1 THEN <<xs[i]>>
                                          ELSE <<xs[i], (c * i + o) % 37>>]
    [] t = "equi-int" -> [i \in 1..cnt |-> <<RE(3..14, h)>>]
    [] OTHER -> GPts(cnt, d, h)
GWorld(h) ==
  LET t == RE({"irreg", "irreg", "mesh", "equi", "equi-int"}, h)
      d == IF t = "equi-int" THEN 1 ELSE RE(1..2, h)
      lo == RE(0..2, h)
      hi == IF t \in {"equi", "equi-int"} THEN 40 ELSE RE(20..31, h)
      n1 == RE(1..4, h)
      n2 == RE(1..3, h)
      cnt == CASE t = "equi" -> IF d = 1 THEN n1 + 1 + RE(1..12, h) ELSE n1 * (n2 + 2) + RE(2..10, h)
               [] t = "equi-int" -> RE(14..30, h)
               [] OTHER -> RE(0..20, h)
      k == RE(1..3, h)
      comps == [i \in 1..k |-> GComp(i, h)]
  IN [dim |-> d, type |-> t, left |-> RE({TRUE, FALSE}, h),
      clip |-> [a_ \in 1..d |-> IF a_ = 1 THEN <<lo, hi>> ELSE <<-1, RE(37..40, h)>>],
      nb |-> IF t = "mesh" THEN <<RE(0..1, h) * n1, RE(0..1, h) * n2>>
             ELSE IF t = "equi-int" THEN <<RE(2..4, h), 0>> ELSE <<n1, n2>>,
      ex |-> Edges(n1 + 1, 0..30, h),
      ey |-> IF d = 1 THEN <<>>
             ELSE [i \in 1..(IF t = "mesh" THEN 1 ELSE n1) |-> Edges(n2 + 1, 0..30, h)],
      data |-> GData(t, d, cnt, h),
      extra |-> [i \in 1..RE(0..3, h) |-> IF d = 1 THEN <<RE({lo, hi, hi + 1, -2}, h)>>
                                          ELSE RE({<<lo, 5>>, <<hi, 6>>, <<5, -1>>, <<6, 50>>, <<45, 45>>}, h)],
      comps |-> comps,
      fixedpts |-> GPts(RE({3, 7}, h), d, h)]
GInit == q = "gen" /\ a = <<>> /\ n = 0 /\ hist = <<>>
GNext ==
  \/ /\ n = 0 /\ n' = 1
     /\ \E w \in {GWorld(n)} : a' = w
     /\ UNCHANGED <<q, hist>>
  \/ /\ n \in 1..4 /\ n' = n + 1
     /\ \E o \in {GOp(a.comps, a.dim, n)} : hist' = Append(hist, o)
     /\ UNCHANGED <<q, a>>
  \/ /\ n = 5 /\ n' = 6
     /\ PrintT("G|" \o ToJson([cfg |-> a, ops |-> hist]))
     /\ UNCHANGED <<q, a, hist>>
GSpec == GInit /\ [][GNext]_hvars
=============================================================================
