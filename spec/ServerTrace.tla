----------------------------- MODULE ServerTrace -----------------------------
(***************************************************************************)
(* Does a recorded run of the server follow Server?  The trace holds many  *)
(* scenarios, each from a "begin" event on.  Enforce: the properties being *)
(* decided.  A step that breaks one of them is not taken.  A step that     *)
(* breaks only others ends the judging of its scenario until the next.     *)
(***************************************************************************)
EXTENDS Server, Json, IOUtils

CONSTANTS Enforce, Report

VARIABLES l, off

Trace == ndJsonDeserialize(IOEnv.TRACE)

TraceInit == ServerInit(<<0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE) /\ l = 1 /\ off = TRUE

E == Trace[l]

Step ==
    CASE E.e = "start" -> Start(E.t)
      [] E.e = "started" -> Started(E.t)
      [] E.e = "mark" -> Mark(E.n, E.t)
      [] E.e = "call" -> Call(E.id, E.op, E.a, E.t)
      [] E.e = "q" -> Ask(E.c, E.cmd, E.d, E.k, E.p, E.u, E.t)
      [] E.e = "a" -> Accept(E.t)
      [] E.e = "ret" -> Ret(E.id, E.ok, E.panic, E.code, E.v, E.t)
      [] E.e = "leave" -> Leave(E.id, E.t)
      [] E.e = "ext" -> External(E.u, E.t)
      [] E.e = "junk" -> Junk(E.t)
      [] E.e \in {"quiet", "calm"} -> Quiet(E.t)
      [] E.e = "end" -> End(E.t)
      [] E.e = "race" -> Race(E.t)
      [] E.e = "hang" -> Hang(E.t)
      [] E.e = "crash" -> Crash(E.t)

\* After a step that breaks only these the rest can still be judged.
Soft == {"C12", "C15", "C20", "C22"}

Say(v) == IF Report /\ v # {} THEN PrintT(<<"BROKEN", v, l>>) ELSE TRUE

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF E.e = "begin" THEN Begin(E.u, E.healthy) /\ off' = FALSE
       ELSE IF off THEN UNCHANGED <<svars, off>>
       ELSE /\ Step
            /\ viol' \cap Enforce = {}
            /\ off' = ((viol' \ viol) \ Soft # {})
            /\ Say(viol' \ viol)

TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l, off>>

Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>)
    ELSE PrintT(<<"REJECTED", d + 1>>)
=============================================================================
