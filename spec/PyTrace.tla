------------------------------- MODULE PyTrace -------------------------------
(***************************************************************************)
(* Does a recorded run of the Python client follow PyClient?               *)
(***************************************************************************)
EXTENDS PyClient, Json, IOUtils

CONSTANTS Enforce, Report
VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]

Take ==
    CASE E.e = "begin" -> PyBegin
      [] E.e = "new" -> New(E.o, E.host, E.given, E.running, E.ok)
      [] E.e = "call" -> Call(E.id, E.o, E.m, E.a, E.loop)
      [] E.e = "req" -> Sent(E.id, E.url, E.ct, E.body)
      [] E.e = "resp" -> Answered(E.id, E.status, E.code, E.body)
      [] E.e = "ret" -> Return(E.id, E.kind, E.b, E.js, E.blocked)
      [] E.e = "exc" -> Raise(E.id, E.name, E.code, E.blocked)
      [] E.e = "broken" -> Broken(E.text)
      [] E.e = "end" -> PyEnd

Say(v) == IF Report /\ v # {} THEN PrintT(<<"BROKEN", v, l>>) ELSE TRUE

TraceInit == PyInit /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ Take
    /\ IF E.e = "begin" THEN TRUE ELSE (viol' \ viol) \cap Enforce = {} /\ Say(viol' \ viol)

TraceSpec == TraceInit /\ [][TraceNext]_<<pvars, l>>

Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>)
    ELSE PrintT(<<"REJECTED", d + 1>>)
=============================================================================
