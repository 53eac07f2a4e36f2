------------------------------- MODULE PyClient -------------------------------
(***************************************************************************)
(* The Python client between its callers and the server: which request a   *)
(* call leads to, and what becomes of the response.                        *)
(*                                                                         *)
(* Each action is one observable step and adds "C25" to viol if it must    *)
(* not happen.  PyImpl drives these actions with a model of the client,    *)
(* PyTrace with recorded runs of the real one.                             *)
(***************************************************************************)
EXTENDS Proto

VARIABLES
    objs,       \* clients: [host, loop]
    pend,       \* calls in progress
    viol
pvars == <<objs, pend, viol>>

PDrop(f, k) == [i \in DOMAIN f \ {k} |-> f[i]]
PPut(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
PNeed(cond) == IF cond THEN {} ELSE {"C25"}

PyInit == objs = [i \in {} |-> 0] /\ pend = [i \in {} |-> 0] /\ viol = {}
PyBegin == objs' = [i \in {} |-> 0] /\ pend' = [i \in {} |-> 0] /\ viol' = {}

-----------------------------------------------------------------------------
(* Methods: the operation, and what it sends for arguments a (None is -1   *)
(* with kind "none", see Bad).                                             *)
OpOf == [ping |-> "GetBootInfo", get_bootinfo |-> "GetBootInfo", get_bypass |-> "GetBypass", get_temps |-> "GetTemps",
         get_fans |-> "GetFans", get_fan_profiles |-> "GetFanProfiles", get_errors |-> "GetErrors",
         set_fan_speed |-> "SetFanSpeed", increase_fan_speed |-> "SetFanSpeed", decrease_fan_speed |-> "SetFanSpeed",
         set_comfort_temperature |-> "SetComfortTemp", configure_fan_profile |-> "SetFanProfile"]
Methods == DOMAIN OpOf
Step(m) == m \in {"increase_fan_speed", "decrease_fan_speed"}
Reading(m) == m \in {"get_bootinfo", "get_bypass", "get_temps", "get_fans", "get_fan_profiles", "get_errors"}

\* The exceptions that refuse arguments a; nothing is sent then.
Bad(m, a) ==
    CASE m = "set_fan_speed" -> IF a[1] \in 1..4 THEN {} ELSE {"InvalidFanSpeed"}
      [] m = "configure_fan_profile" -> (IF a[1] \in 1..4 THEN {} ELSE {"InvalidFanSpeed"})
                                        \cup (IF a[2] \in 15..100 THEN {} ELSE {"InvalidDutyPercent"})
      [] m = "set_comfort_temperature" -> IF a # <<>> /\ a[1] \in 0..255 THEN {} ELSE {"InvalidTemperature"}
      [] OTHER -> {}

Fields(m, a) ==
    CASE m = "set_fan_speed" -> [Abs |-> a[1], Rel |-> FALSE]
      [] m = "increase_fan_speed" -> [Abs |-> 0, Rel |-> TRUE]
      [] m = "decrease_fan_speed" -> [Abs |-> 0, Rel |-> FALSE]
      [] m = "set_comfort_temperature" -> [ComfortTemp |-> a[1]]
      [] m = "configure_fan_profile" -> [Mode |-> a[1], TargetSpeed |-> a[2]]
      [] OTHER -> Empty("Noop")

Url(host, m) == "http://" \o host \o ":3094" \o Service \o OpOf[m]

-----------------------------------------------------------------------------
\* A client for a host, with a loop given or not ("none"), made in a running loop or not.
New(o, host, given, running, ok) ==
    /\ objs' = PPut(objs, o, [host |-> host, loop |-> IF given # "none" THEN given ELSE running])
    /\ viol' = viol \cup PNeed(ok)
    /\ UNCHANGED pend

\* A call, synchronous ("none") or in the given loop.
Call(id, o, m, a, loop) ==
    /\ id \notin DOMAIN pend
    /\ pend' = PPut(pend, id, [o |-> o, m |-> m, a |-> a, loop |-> loop, sent |-> 0, done |-> FALSE,
                               status |-> 0, code |-> "", body |-> <<>>])
    /\ UNCHANGED <<objs, viol>>

\* A request leaves.
Sent(id, url, ct, body) ==
    IF id \notin DOMAIN pend THEN viol' = viol \cup {"C25"} /\ UNCHANGED <<objs, pend>>
    ELSE LET c == pend[id]
             m == In[OpOf[c.m]]
         IN
         /\ pend' = [pend EXCEPT ![id].sent = @ + 1]
         /\ viol' = viol \cup PNeed(/\ Bad(c.m, c.a) = {} /\ c.sent = 0
                                    /\ url = Url(objs[c.o].host, c.m) /\ ct = "application/protobuf"
                                    /\ DecProto(m, body) = [ok |-> TRUE, v |-> Fields(c.m, c.a)])
         /\ UNCHANGED objs

\* The response arrives: status 0 if there is none. code: of the error that it describes, "" if unknown.
Answered(id, status, code, body) ==
    IF id \notin DOMAIN pend THEN UNCHANGED pvars
    ELSE /\ pend' = [pend EXCEPT ![id].done = TRUE, ![id].status = status, ![id].code = code, ![id].body = body]
         /\ UNCHANGED <<objs, viol>>

\* A method that awaits the client's own loop must not stop it.
Fair(c, blocked) == c.loop # "none" => ~blocked
\* Asynchronous calls have to be made in the client's loop.
Proper(c) == c.loop = "none" \/ c.loop = objs[c.o].loop

\* The call returns: kind "bool" with b, or "obj" with members js.
Return(id, kind, b, js, blocked) ==
    LET c == pend[id]
        r == DecProto(Out[OpOf[c.m]], c.body).v
        good == c.done /\ c.status = 200
    IN
    /\ id \in DOMAIN pend
    /\ viol' = viol \cup PNeed(Proper(c) =>
         /\ Fair(c, blocked)
         /\ CASE Reading(c.m) -> good /\ kind = "obj" /\ WholeJson(Out[OpOf[c.m]], js) /\ DecJson(Out[OpOf[c.m]], js).v = r
              [] c.m = "ping" -> good /\ kind = "bool" /\ b
              [] good -> kind = "bool" /\ b = r.Modified
              [] OTHER -> Step(c.m) /\ c.done /\ c.code = "invalid_argument" /\ kind = "bool" /\ ~b)
    /\ pend' = PDrop(pend, id)
    /\ UNCHANGED objs

\* The call raises an exception; code: a server error's.
Raise(id, name, code, blocked) ==
    LET c == pend[id] IN
    /\ id \in DOMAIN pend
    /\ viol' = viol \cup PNeed(Proper(c) =>
         /\ Fair(c, blocked)
         /\ IF Bad(c.m, c.a) # {} THEN c.sent = 0 /\ name \in Bad(c.m, c.a)
            ELSE /\ c.done /\ c.status # 200 /\ name = "TwirpServerException"
                 /\ c.code # "" => code = c.code
                 /\ ~(Step(c.m) /\ c.code = "invalid_argument"))
    /\ pend' = PDrop(pend, id)
    /\ UNCHANGED objs

PyEnd == viol' = viol \cup PNeed(DOMAIN pend = {}) /\ UNCHANGED <<objs, pend>>
\* The client cannot even be loaded.
Broken(what) == viol' = viol \cup {"C25"} /\ UNCHANGED <<objs, pend>>

NoViolation == viol = {}
=============================================================================
