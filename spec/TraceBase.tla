------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Validation of recorded executions of the real code against a            *)
(* specification.  TRACE_FILE (environment) names a JSON array of traces;  *)
(* each trace is a record with (at least) a non-empty sequence `events`.   *)
(* The specification is plugged in through three operators, bound in the   *)
(* .cfg file:                                                              *)
(*   TInitState(tr)   abstract state before the first event                *)
(*   TJudge(st, e)    sequence of <<clause, expected>> violated by event e *)
(*                    when it is taken in abstract state st (empty: the    *)
(*                    specification allows the event)                      *)
(*   TApply(st, e)    abstract state after e                               *)
(* The verdict is total: every trace ends in exactly one line              *)
(*   "V|<trace>|<event>|OK|"  or  "V|<trace>|<event>|<clause>|<expected>". *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS TInitState(_), TJudge(_, _), TApply(_, _)

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, pos, st

tvars == <<tr, pos, st>>

(* Helper: one clause of a judgement. *)
Clause(ok, name, expected) == IF ok THEN <<>> ELSE <<<<name, expected>>>>

Verdict(i, p, c, d) ==
  PrintT("V|" \o ToString(i) \o "|" \o ToString(p) \o "|" \o c \o "|" \o d)

TraceInit ==
  /\ tr \in DOMAIN Traces
  /\ pos = 1
  /\ st = TInitState(Traces[tr])

TraceNext ==
  /\ pos > 0
  /\ pos <= Len(Traces[tr].events)
  /\ LET e == Traces[tr].events[pos]
         bad == TJudge(st, e)
     IN IF Len(bad) > 0
        THEN /\ Verdict(tr, pos, bad[1][1], ToString(bad[1][2]))
             /\ pos' = 0
             /\ UNCHANGED <<tr, st>>
        ELSE /\ st' = TApply(st, e)
             /\ pos' = pos + 1
             /\ tr' = tr
             /\ IF pos = Len(Traces[tr].events)
                THEN Verdict(tr, pos, "OK", "") ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
