------------------------------ MODULE HttpTrace ------------------------------
(***************************************************************************)
(* Does a recorded run of the program follow Http?  See ServerTrace.       *)
(***************************************************************************)
EXTENDS Http, Json, IOUtils

CONSTANTS Enforce, Report
VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]

Step ==
    CASE E.e = "begin" -> HBegin
      [] E.e = "call" -> Request(E.id, E.method, E.path, E.ct, E.body, E.t)
      [] E.e = "q" -> Ask(E.cmd, E.d, E.k, E.p, E.t)
      [] E.e = "a" -> Answer(E.t)
      [] E.e = "ret" -> Response(E.id, E.status, E.ct, E.code, E.body, E.t)
      [] E.e = "lost" -> Lost(E.id, E.t)
      [] E.e = "gone" -> Gone(E.t)
      [] E.e = "exit" -> Died(E.t)
      [] E.e \in {"conn", "junk", "up"} -> UNCHANGED hvars
      [] E.e = "end" -> HEnd(E.t)

Say(v) == IF Report /\ v # {} THEN PrintT(<<"BROKEN", v, l>>) ELSE TRUE

TraceInit == HttpInit /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ Step
    /\ IF E.e = "begin" THEN TRUE ELSE (viol' \ viol) \cap Enforce = {} /\ Say(viol' \ viol)

TraceSpec == TraceInit /\ [][TraceNext]_<<hvars, l>>

Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>)
    ELSE PrintT(<<"REJECTED", d + 1>>)
=============================================================================
