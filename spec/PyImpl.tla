-------------------------------- MODULE PyImpl --------------------------------
(***************************************************************************)
(* A model of the client: each call checks its arguments, sends, waits     *)
(* (off its loop when it is asynchronous), and translates.  In lock-step   *)
(* it takes PyClient's actions.  Flaw chooses a deliberate defect.         *)
(***************************************************************************)
EXTENDS PyClient

CONSTANTS
    Objects,            \* clients to be made: o -> [host, given, running]
    Calls,              \* calls to choose from: <<method, arguments>>
    Replies,            \* responses: operation -> {[status, code, body]}
    MaxCalls,
    Flaw

VARIABLES
    own,       \* the clients' own loops
    run,       \* calls being carried out: id -> [pc, o, m, a, loop, r]
    busy,      \* loops that are held up
    n,
    trail
ivars == <<own, run, busy, n, trail>>
vars == <<pvars, ivars>>

Init == PyInit /\ own = [o \in {} |-> ""] /\ run = [i \in {} |-> 0] /\ busy = {} /\ n = 0 /\ trail = <<>>

Make(o) ==
    /\ o \in DOMAIN Objects \ DOMAIN objs
    /\ LET c == Objects[o] IN
       /\ New(o, c.host, c.given, c.running, TRUE)
       /\ own' = PPut(own, o, IF Flaw = "running" /\ c.running # "none" THEN c.running ELSE IF c.given # "none" THEN c.given ELSE c.running)
    /\ UNCHANGED <<run, busy, n, trail>>

Start(o) ==
    /\ n < MaxCalls /\ o \in DOMAIN objs
    /\ \A i \in DOMAIN run : run[i].o # o
    /\ \E c \in Calls, l \in {"none", objs[o].loop} :
        /\ l \notin busy
        \* a synchronous call holds up the thread that all loops take turns in
        /\ l = "none" => run = [i \in {} |-> 0]
        /\ \A i \in DOMAIN run : run[i].loop # "none"
        /\ n' = n + 1
        /\ Call(n + 1, o, c[1], c[2], l)
        /\ run' = PPut(run, n + 1, [pc |-> "check", o |-> o, m |-> c[1], a |-> c[2], loop |-> l, r |-> <<>>])
        /\ trail' = Append(trail, <<o, c[1], c[2], l>>)
    /\ UNCHANGED <<own, busy>>

Elsewhere(c) == c.loop # "none" /\ own[c.o] # c.loop
Accepts(c) ==
    LET limit == CASE Flaw = "range" /\ c.m = "configure_fan_profile" -> c.a[1] \in 1..4 /\ c.a[2] \in 14..100
                   [] Flaw = "zero" /\ c.m = "set_comfort_temperature" -> c.a # <<>> /\ c.a[1] \in 1..255
                   [] OTHER -> Bad(c.m, c.a) = {}
    IN limit

Check(i) ==
    LET c == run[i] IN
    /\ c.pc = "check"
    /\ IF Elsewhere(c) THEN Raise(i, "RuntimeError", "", FALSE) /\ run' = PDrop(run, i)
       ELSE IF ~Accepts(c) /\ Flaw # "late" THEN
            /\ Raise(i, IF Bad(c.m, c.a) # {} THEN CHOOSE e \in Bad(c.m, c.a) : TRUE ELSE "InvalidTemperature", "", FALSE)
            /\ run' = PDrop(run, i)
       ELSE run' = [run EXCEPT ![i].pc = "send"] /\ UNCHANGED pvars
    /\ UNCHANGED <<own, busy, n, trail>>

Send(i) ==
    LET c == run[i]
        m == In[OpOf[c.m]]
        a == IF c.a # <<>> /\ (\E k \in DOMAIN c.a : c.a[k] < 0) THEN [k \in DOMAIN c.a |-> 0] ELSE IF c.a = <<>> THEN <<0>> ELSE c.a
        f == Fields(IF Flaw = "rel" /\ c.m = "decrease_fan_speed" THEN "increase_fan_speed" ELSE c.m, a)
        g == IF Flaw = "swap" /\ c.m = "configure_fan_profile" THEN [Mode |-> f.TargetSpeed, TargetSpeed |-> f.Mode] ELSE f
    IN
    /\ c.pc = "send"
    /\ Sent(i, IF Flaw = "port" THEN "http://" \o objs[c.o].host \o Service \o OpOf[c.m] ELSE Url(objs[c.o].host, c.m),
            "application/protobuf", EncProto(m, g))
    /\ run' = [run EXCEPT ![i].pc = "wait"]
    /\ busy' = IF Flaw = "block" /\ c.loop # "none" THEN busy \cup {c.loop} ELSE busy
    /\ UNCHANGED <<own, n, trail>>

Receive(i) ==
    LET c == run[i] IN
    /\ c.pc = "wait"
    /\ \E r \in Replies[OpOf[c.m]] :
        /\ Answered(i, r.status, r.code, r.body)
        /\ run' = [run EXCEPT ![i].pc = "finish", ![i].r = r]
    /\ UNCHANGED <<own, busy, n, trail>>

Kinds == [Fans |-> <<"InPercent", "OutPercent">>]
Finish(i) ==
    LET c == run[i]
        m == Out[OpOf[c.m]]
        v == DecProto(m, c.r.body).v
        w == IF Flaw = "field" /\ m = "Fans" THEN [v EXCEPT !.OutPercent = v.InPercent] ELSE v
        js == LET all == EncJson(m, w) IN [k \in DOMAIN all |-> IF all[k][2] = "num" /\ all[k][3] < 0 THEN <<all[k][1], "neg", all[k][3]>> ELSE all[k]]
        blocked == c.loop \in busy
        refused == c.r.status # 200 /\ (c.r.code = "invalid_argument" \/ Flaw = "swallow")
    IN
    /\ c.pc = "finish"
    /\ IF c.r.status = 200 THEN
            IF Reading(c.m) THEN Return(i, "obj", FALSE, js, blocked)
            ELSE Return(i, "bool", IF c.m = "ping" \/ Flaw = "true" THEN TRUE ELSE v.Modified, <<>>, blocked)
       ELSE IF (Step(c.m) \/ (Flaw = "set" /\ c.m = "set_fan_speed")) /\ refused /\ Flaw # "raise" THEN Return(i, "bool", FALSE, <<>>, blocked)
       ELSE Raise(i, "TwirpServerException", IF c.r.code = "" THEN "unavailable" ELSE c.r.code, blocked)
    /\ run' = PDrop(run, i)
    /\ busy' = busy \ {c.loop}
    /\ UNCHANGED <<own, n, trail>>

Next == \/ \E o \in DOMAIN Objects : Make(o) \/ Start(o)
        \/ \E i \in DOMAIN run : Check(i) \/ Send(i) \/ Receive(i) \/ Finish(i)
Spec == Init /\ [][Next]_vars
=============================================================================
