------------------------------ MODULE Trace_Fit ------------------------------
(* Judges recorded fits.  The trace declares: names (fitted, sorted), fixed    *)
(* (name -> value), pos (point -> values), lp (point -> rank of the posterior).*)
EXTENDS TraceBase, Fit

XTInit(t) == [s |-> InitFit, t |-> [names |-> t.names, fixed |-> t.fixed, pos |-> t.pos, lp |-> t.lp], tok |-> t.tok,
              seen |-> 0]
Fixed(x) == IF DOMAIN x.t.fixed = {} THEN <<>> ELSE x.t.fixed
Known(x, rows) == \A i \in DOMAIN rows : \A w \in DOMAIN rows[i] : rows[i][w] \in DOMAIN x.t.pos
LpOk(x, e) == \A i \in DOMAIN e.rows : \A w \in DOMAIN e.rows[i] : e.lps[i][w] = x.t.lp[e.rows[i][w]]
(* the calls of one evaluation repeat the same point                             *)
Firsts(calls, rep) == [i \in 1..((Len(calls) + rep - 1) \div rep) |-> calls[(i - 1) * rep + 1]]
Grouped(calls, rep) == \A i \in DOMAIN calls : calls[i] = calls[((i - 1) \div rep) * rep + 1]
Within(rows, k) == [i \in 1..(Len(rows) - k) |-> rows[k + i]]
Take(rows, k) == [i \in 1..Min2(k, Len(rows)) |-> rows[i]]
Table(x, p) == [k \in Range(x.t.names) \cup DOMAIN Fixed(x) |->
                  IF k \in Range(x.t.names) THEN x.t.pos[p][IndexOf(x.t.names, k)] ELSE Fixed(x)[k]]
Same(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : Near(a[k], b[k], 1)

Largest(S) == CHOOSE m \in S : \A y \in S : y <= m
(* in mode "hold" a point evaluated for the first time is never accepted: its     *)
(* posterior is far below that of every point evaluated before                    *)
RunJudge(x, e) ==
  LET pre == Prefix(x.s, e.c, e.op)
      ev == Firsts(e.calls, e.rep)
      new == Within(e.rows, Len(pre))
      start == IF e.op = "fit" THEN Take(ev, e.nw) ELSE Start(x.s, e.c, e.src)
      err == IF e.hit THEN "VfFail" ELSE ""
  IN Clause(e.err = err, "run-outcome", err)
     \o Clause(Known(x, e.rows), "chain-holds-points-never-evaluated", "")
     \o Clause(Take(e.rows, Len(pre)) = pre, "earlier-steps-changed", Len(pre))
     \o Clause(IF e.hit THEN Len(new) <= e.it ELSE Len(new) = e.it, "number-of-steps", Len(pre) + e.it)
     \o Clause(\A i \in DOMAIN e.batches : e.batches[i] = e.batch, "batch-size", e.batch)
     \o Clause(Grouped(e.calls, e.rep), "repetitions", e.rep)
     \o (IF Len(new) = 0 THEN <<>> ELSE
         Clause(\A i \in DOMAIN new : Len(new[i]) = Len(start), "number-of-walkers", Len(start))
         \o Clause(Steps(new, start, Range(ev)), "steps-do-not-continue", start)
         \o (IF e.mode = "hold" /\ (\A p \in Range(ev) \ Range(start) : p > x.seen) THEN Clause(Frozen(new, start), "rejected-moves-must-stay", start) ELSE <<>>)
         \o Clause(LpOk(x, e), "stored-posterior", ""))
     \o Clause(e.file => e.frows = e.rows, "backend-file-differs", "")

XTJudge(x, e) ==
  CASE e.op = "new" -> Clause(e.err = "", "context-refused", "")
                       \o Clause(e.pristine, "instruct-modified", "")
    [] e.op \in {"fit", "cont"} -> RunJudge(x, e)
    [] e.op = "reload" ->
         LET rows == x.s.files[e.f].rows
         IN Clause(e.err = "", "reload-refused", "")
            \o (IF e.err # "" THEN <<>> ELSE
                Clause(e.rows = rows, "reloaded-chain", rows)
                \o Clause(e.lineage = x.tok.lineage, "reloaded-context-differs", "")
                \o Clause(e.names = x.t.names, "reloaded-parameters", x.t.names)
                \o Clause(\A i \in DOMAIN e.batches : e.batches[i] = x.s.files[e.f].meta.batch, "reloaded-batch-size",
                          x.s.files[e.f].meta.batch)
                \o Clause(e.untouched, "backend-file-modified", ""))
    [] e.op \in {"post", "dump"} ->
         LET rows == Rows(x.s, e.c)
         IN IF e.which = "best" THEN Clause(e.err = "ValueError", "unknown-kind-accepted", "ValueError")
            ELSE Clause(e.err = "", "posterior-refused", "")
                 \o (IF e.err # "" THEN <<>> ELSE
                     Clause(DOMAIN e.par = Range(x.t.names) \cup DOMAIN Fixed(x), "posterior-names", x.t.names)
                     \o (CASE e.which = "mpe" ->
                            Clause(\E p \in Best(rows, x.t.lp) : Same(Table(x, p), e.par), "maximum-posterior", Best(rows, x.t.lp))
                         [] e.which = "random" ->
                            Clause(\E p \in Points(rows) : Same(Table(x, p), e.par), "random-posterior", "")
                         [] OTHER ->
                            LET fl == Flat(rows)
                                med == [k \in Range(x.t.names) |->
                                          Median2([i \in DOMAIN fl |-> x.t.pos[fl[i]][IndexOf(x.t.names, k)]])]
                            IN Clause(/\ \A k \in Range(x.t.names) : Near(2 * e.par[k], med[k], 4)
                                      /\ \A k \in DOMAIN Fixed(x) : e.par[k] = Fixed(x)[k], "median", med)))
    [] e.op = "meta" ->
         LET f == x.s.ctx[e.c].file
             rows == x.s.files[f].rows
         IN Clause(e.err = "", "metadata-missing", "")
            \o (IF e.err # "" THEN <<>> ELSE
                Clause(e.instruct = x.tok.instruct, "saved-instruct", "")
                \o Clause(e.parconf = x.tok.parconf, "saved-par-config", "")
                \o Clause(e.config = x.tok.config, "saved-config", "")
                \o Clause(e.batch = x.s.files[f].meta.batch, "saved-batch-size", x.s.files[f].meta.batch)
                \o Clause(e.order = x.t.names, "saved-parameter-order", x.t.names)
                \o Clause(\E p \in Best(rows, x.t.lp) : Same(Table(x, p), e.par), "saved-posterior", Best(rows, x.t.lp)))
    [] e.op = "all" ->
         LET th == Thin(Rows(x.s, e.c), e.d, e.t)
             want == IF e.flat THEN Flat(th) ELSE th
         IN Clause(e.err = "", "chain-refused", "")
            \o (IF e.err # "" THEN <<>> ELSE Clause(e.got = want, "posterior-chain", want))
    [] e.op = "template" ->
         LET B == Best(Rows(x.s, e.c), x.t.lp)
         IN Clause(e.err = "", "template-refused", "")
            \o (IF e.err # "" THEN <<>> ELSE
                Clause(e.n = e.batch, "template-size", e.batch)
                \o Clause(\E p \in B : \A k \in DOMAIN e.vals : Near(Table(x, p)[k], e.vals[k], 2), "template-parameters", B)
                \o Clause(e.fc = x.tok.fc, "template-configuration", x.tok.fc)
                \o Clause(e.again, "same-seed-same-template", "")
                \o Clause(e.other, "other-seed-other-template", ""))
    [] OTHER -> Clause(FALSE, "unknown-event", e.op)

XTApply(x, e) ==
  CASE e.op = "new" -> [x EXCEPT !.s = DoNew(x.s, e.c, e.f)]
    [] e.op \in {"fit", "cont"} ->
         [x EXCEPT !.s = Added(x.s, e.c, e.op, Within(e.rows, Len(Prefix(x.s, e.c, e.op))), ~e.hit, e.batch),
                   !.seen = Largest(Range(e.calls) \cup {@})]
    [] e.op = "reload" -> [x EXCEPT !.s = DoReload(x.s, e.c, e.f, e.g)]
    [] OTHER -> x
=============================================================================
