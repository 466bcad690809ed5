--------------------------------- MODULE Model ---------------------------------
(***************************************************************************)
(* A fit model: likelihoods made of components, which parameters it needs,  *)
(* how parameters travel (copies, aliases) and what the posterior is.       *)
(*                                                                         *)
(* component : [name, fixed, pars (seq), sigma (""| name), m (events of a   *)
(*              fixed component)]                                           *)
(* likelihood: [name, alias (name -> internal name), copies (new -> old),   *)
(*              n (events of data), comps (seq)]                            *)
(* table     : parameter name -> integer                                    *)
(***************************************************************************)
EXTENDS Param

(* ------------------------------------------------------------ needed parameters *)
RateOf(c) == c.name \o "_rate"
CompNeeds(c) == {RateOf(c)} \cup (IF c.fixed THEN {} ELSE Range(c.pars) \cup ({c.sigma} \ {""}))
(* what the user has to provide for an internal name *)
Outer(l, p) == IF \E k \in DOMAIN l.alias : l.alias[k] = p
               THEN CHOOSE k \in DOMAIN l.alias : l.alias[k] = p ELSE p
LlhNeeds(l) == {Outer(l, p) : p \in UNION {CompNeeds(l.comps[i]) : i \in DOMAIN l.comps}}
CtxNeeds(ls) == UNION {LlhNeeds(ls[i]) : i \in DOMAIN ls}
                \cup UNION {DOMAIN ls[i].copies : i \in DOMAIN ls}

(* the same, the way it is accumulated while components are registered       *)
Accumulate(l, acc, c) ==
  LET a == acc \cup CompNeeds(c)
      hit == {k \in DOMAIN l.alias : l.alias[k] \in a}
  IN (a \ {l.alias[k] : k \in hit}) \cup hit

(* ------------------------------------------------------------ provided parameters *)
AllRates(ls) == UNION {{RateOf(ls[i].comps[j]) : j \in DOMAIN ls[i].comps} : i \in DOMAIN ls}
AllCopies(ls) == UNION {DOMAIN ls[i].copies : i \in DOMAIN ls}
CopySources(ls) == UNION {{ls[i].copies[k] : k \in DOMAIN ls[i].copies} : i \in DOMAIN ls}
(* a copied parameter takes the configuration of its source; the source is    *)
(* dropped unless it is itself the rate of a component                        *)
Provided(ls, given) == (given \cup AllCopies(ls)) \ (CopySources(ls) \ AllRates(ls))
SourceOf(ls, p) == IF p \in AllCopies(ls)
                   THEN LET i == CHOOSE i \in DOMAIN ls : p \in DOMAIN ls[i].copies
                        IN ls[i].copies[p]
                   ELSE p
Sane(ls, given) == Provided(ls, given) \subseteq CtxNeeds(ls)

(* ------------------------------------------------------------ what a component sees *)
Inner(l, tab) ==
  LET ren == {k \in DOMAIN l.alias : k \in DOMAIN tab}
      keep == DOMAIN tab \ ren
      dom == keep \cup {l.alias[k] : k \in ren}
  IN [p \in dom |-> IF \E k \in ren : l.alias[k] = p
                    THEN tab[CHOOSE k \in ren : l.alias[k] = p] ELSE tab[p]]
Missing(l, tab) == UNION {CompNeeds(l.comps[i]) : i \in DOMAIN l.comps} \ DOMAIN Inner(l, tab)

RECURSIVE Digits(_, _, _)
Digits(pars, tab, i) == IF i > Len(pars) THEN 0
                        ELSE tab[pars[i]] + 10 * Digits(pars, tab, i + 1)
(* median 10, lower 8, upper 13 *)
SigmaVal(s) == 10 + (IF s > 0 THEN 3 * s ELSE 2 * s)
(* first observable, second observable, total weight of a simulated component *)
CompOut(c, tab) == [d1 |-> Digits(c.pars, tab, 1),
                    d2 |-> IF c.sigma = "" THEN 5 ELSE SigmaVal(tab[c.sigma]),
                    w |-> tab[RateOf(c)]]
RECURSIVE Total(_, _, _)
Total(l, tab, i) == IF i > Len(l.comps) THEN 0
                    ELSE tab[RateOf(l.comps[i])] + Total(l, tab, i + 1)

(* ------------------------------------------------------------ likelihood, posterior *)
(* one bin that contains everything: Poisson of n events with mean T; 1e-6    *)
Finite(l, tab) == Total(l, Inner(l, tab), 1) > 0
LogLike(l, tab) == LET t == Total(l, Inner(l, tab), 1) IN l.n * Ln6(t) - t * U
RECURSIVE SumLike(_, _, _)
SumLike(ls, tab, i) == IF i > Len(ls) THEN 0 ELSE LogLike(ls[i], tab) + SumLike(ls, tab, i + 1)
AllFinite(ls, tab) == \A i \in DOMAIN ls : Finite(ls[i], tab)
=============================================================================
