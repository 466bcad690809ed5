---------------------------------- MODULE Lit ----------------------------------
(***************************************************************************)
(* Likelihood of literature measurements: every simulated point (x, y) with *)
(* weight e/2 contributes its weight times the log density of y at x.       *)
(* vtype "norm":        args[i] = [m, s]                                    *)
(*       "twohalfnorm": args[i] = [m, p, n]                                 *)
(*       "band":        args = nodes [x, m, p, n], linear in between; no     *)
(*                      density outside of the nodes                        *)
(* pts[i] = [x, y, e, nan]                                                  *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

HALFLN2PI == 918939
Types == {"norm", "twohalfnorm", "band"}
(* 1e6 * log density of y for mode m and widths p (above), n (below)          *)
LogDens(y, m, p, n) ==
  LET s == IF y < m THEN n ELSE p
  IN Ln6(2) - Ln6(p + n) - HALFLN2PI - RoundDiv((y - m) * (y - m) * 500000, s * s)
Between(nodes, x) == {i \in 1..(Len(nodes) - 1) : nodes[i].x <= x /\ x <= nodes[i + 1].x}
Lin(a, b, xa, xb, x) == a + ((b - a) * (x - xa)) \div (xb - xa)
Node(nodes, x) ==
  LET i == CHOOSE j \in Between(nodes, x) : TRUE
      a == nodes[i]
      b == nodes[i + 1]
      L(u, v) == Lin(u, v, a.x, b.x, x)
  IN [m |-> L(a.m, b.m), p |-> L(a.p, b.p), n |-> L(a.n, b.n)]
Outside(vtype, args, pt) == vtype = "band" /\ Between(args, pt.x) = {}
Point(vtype, args, i, pt, shift) ==
  LET a == CASE vtype = "norm" -> [m |-> args[i].m, p |-> args[i].s, n |-> args[i].s]
             [] vtype = "twohalfnorm" -> args[i]
             [] OTHER -> Node(args, pt.x)
  IN LogDens(pt.y + shift, a.m, a.p, a.n)
Value(vtype, args, pts, shift) ==
  IF \E i \in DOMAIN pts : pts[i].nan \/ Outside(vtype, args, pts[i])
  THEN [k |-> "-inf", v |-> 0]
  ELSE [k |-> "num", v |-> SumSeq([i \in DOMAIN pts |->
                             (Point(vtype, args, i, pts[i], shift) * pts[i].e) \div 2])]
(* outcome of creating the likelihood and of registering the n-th component   *)
NewErr(vtype, dim) == IF vtype \notin Types THEN "RuntimeError" ELSE IF dim # 2 THEN "AssertionError" ELSE ""
RegErr(n) == IF n > 1 THEN "AssertionError" ELSE ""
=============================================================================
