------------------------------ MODULE BootTrace ------------------------------
(***************************************************************************)
(* Does a recorded start of the program follow Boot?  See ServerTrace.     *)
(***************************************************************************)
EXTENDS Boot, Json, IOUtils

CONSTANTS Enforce, Report
VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]

Step ==
    CASE E.e = "begin" -> BBegin(E.flags, E.env, E.usb)
      [] E.e = "conn" -> Connect(E.at)
      [] E.e = "line" -> Line(E.speed)
      [] E.e = "q" -> BAsk(E.at, E.cmd)
      [] E.e = "up" -> Up(E.at)
      [] E.e = "reach" -> Reach(E.at, ToSet(E.could), ToSet(E.from))
      [] E.e = "serves" -> Serves(E.ok)
      [] E.e = "exit" -> Exit(E.code)
      [] E.e = "stuck" -> Stuck
      [] E.e = "log" -> Logged(E.debug)
      [] E.e = "end" -> BEnd
      [] OTHER -> UNCHANGED bvars

Say(v) == IF Report /\ v # {} THEN PrintT(<<"BROKEN", v, l>>) ELSE TRUE

TraceInit == Fresh0(<<>>, [x \in {} |-> ""], FALSE) /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ Step
    /\ IF E.e = "begin" THEN TRUE ELSE (viol' \ viol) \cap Enforce = {} /\ Say(viol' \ viol)

TraceSpec == TraceInit /\ [][TraceNext]_<<bvars, l>>

Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>)
    ELSE PrintT(<<"REJECTED", d + 1>>)
=============================================================================
