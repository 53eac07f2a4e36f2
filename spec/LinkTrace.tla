------------------------------ MODULE LinkTrace ------------------------------
(***************************************************************************)
(* Does a recorded run of the library follow Link?  The trace holds many   *)
(* scenarios, each from a "begin" event on; every event is one action of   *)
(* Link with the logged arguments.                                         *)
(*                                                                         *)
(* Enforce: the properties being decided.  A step that breaks one of them  *)
(* is not taken, so the trace is not accepted.  A step that breaks only    *)
(* others ends the judging of its scenario (off) until the next begin.     *)
(***************************************************************************)
EXTENDS Link, Json, IOUtils

CONSTANTS Enforce, Report

VARIABLES l,     \* next event
          off,   \* this scenario is not judged any further
          told   \* values that calls returned

Trace == ndJsonDeserialize(IOEnv.TRACE)

TraceInit == LinkInit /\ l = 1 /\ off = TRUE /\ told = [i \in {} |-> 0]

E == Trace[l]

Restart ==
    /\ now' = 0 /\ calls' = [i \in {} |-> 0] /\ x' = NoX /\ asked' = <<>> /\ stray' = -1000000
    /\ noise' = 0 /\ gone' = FALSE /\ failed' = {} /\ freeAt' = 0 /\ murky' = FALSE /\ viol' = {}

\* The call on whose behalf a write is made: logged, or to be found out.
Writers == IF E.c # 0 THEN {E.c} ELSE DOMAIN calls

Step ==
    CASE E.e = "call" -> Call(E.id, E.op, E.a, E.t)
      [] E.e = "w"    -> IF Writers \cap DOMAIN calls = {} THEN Rogue(E.t)
                         ELSE \E id \in Writers : HostWrite(id, E.b, E.err, E.t)
      [] E.e = "q"    -> UnitGot(E.t)
      [] E.e = "junk" -> UnitJunk(E.t)
      [] E.e = "s"    -> UnitSend(E.n, E.b, E.err, E.t)
      [] E.e = "r"    -> HostRead(E.b, E.err # "", E.t)
      [] E.e = "ret"  -> Ret(E.id, E.ok, E.panic, E.v, E.t)
      [] E.e = "look" -> Look(E.id \in DOMAIN told /\ told[E.id] = E.v, E.t)
      [] E.e = "end"  -> End(E.t)
      [] E.e \in {"hang", "crash"} -> Hang(E.t)

Say(v) == IF Report /\ v # {} THEN PrintT(<<"BROKEN", v, l>>) ELSE TRUE

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ told' = IF E.e = "begin" THEN [i \in {} |-> 0]
               ELSE IF E.e = "ret" /\ E.ok /\ E.kept THEN Put(told, E.id, E.v) ELSE told
    /\ IF E.e = "begin" THEN Restart /\ off' = FALSE
       ELSE IF off THEN UNCHANGED <<lvars, off>>
       ELSE /\ Step
            /\ viol' \cap Enforce = {}
            /\ off' = ((viol' \ viol) \ Soft # {} \/ murky')
            /\ Say(viol' \ viol)

TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, l, off, told>>

Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>)
    ELSE PrintT(<<"REJECTED", d + 1>>)
=============================================================================
