------------------------------- MODULE HttpImpl -------------------------------
(***************************************************************************)
(* A model of the program between HTTP and the unit, as processes: requests*)
(* are routed, decoded, carried out one exchange at a time, and answered.  *)
(* In lock-step it takes Http's actions.  Flaw chooses a deliberate defect.*)
(***************************************************************************)
EXTENDS Http

CONSTANTS
    Clients, PerClient,   \* clients, and requests that each of them makes
    Requests,             \* requests to choose from: <<method, path, ct, body>>
    Unit0,                \* the unit's settings at first
    Kinds, MaxFaulty,     \* ways in which the unit fails, and how often
    Limit,                \* responses after this time are lost (none: 0)
    Flaw

VARIABLES
    uu,      \* the unit's settings
    fans,    \* duties that it reports
    sv,      \* what is served: per data set a payload
    job,     \* per client: the request being carried out
    todo,    \* per client: requests left
    locks,   \* holder of each class of changes, 0 if none
    line,    \* who has the line, 0 if nobody
    asking,  \* the answer that is due
    faults,
    trail    \* what the clients asked for, for replay
ivars == <<uu, fans, sv, job, todo, locks, line, asking, faults, trail>>
vars == <<hvars, ivars>>

Idle == [pc |-> "idle", op |-> "", a |-> <<>>, ct |-> "", rq |-> <<>>, steps |-> <<>>, o |-> 0, mod |-> FALSE, tgt |-> 0,
         ok |-> TRUE, rd |-> 0, t |-> 0, refused |-> FALSE]

Payload(ds) ==
    CASE ds = "profiles" -> <<uu[3], uu[4], uu[5], uu[6], uu[7], uu[8], 1, 2, uu[1], 1, uu[9], uu[10], 0, 0>>
      [] ds = "fans" -> <<fans[1], fans[2], 4, 1, 4, 2>>
      [] ds = "temps" -> <<uu[2], 40, 30, 44, 7, 0, 20, 0, 60>>
      [] ds = "errors" -> <<0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0>>
      [] ds = "bypass" -> <<0, 0, 3, 100, 7, 0, 1>>
      [] OTHER -> <<3, 60, 0, 67, 111, 109, 102, 111, 65, 105, 114, 32, 32>>

Init ==
    /\ uu = Unit0 /\ fans = DutiesIn(Unit0, Unit0[1])
    /\ now = 0 /\ gone = FALSE /\ x = NoReq /\ calls = [i \in {} |-> 0] /\ viol = {}
    /\ sv = [ds \in Sets |-> Payload(ds)]
    /\ hist = [ds \in Sets |-> <<[t |-> 0, p |-> Payload(ds)]>>]
    /\ job = [c \in Clients |-> Idle] /\ todo = [c \in Clients |-> PerClient]
    /\ locks = [cl \in {"fan", "temp"} |-> 0] /\ line = 0 /\ asking = NoReq /\ faults = 0 /\ trail = <<>>

T == now + 1

-----------------------------------------------------------------------------
(* A request comes in. *)
Post(c) ==
    /\ job[c].pc = "idle" /\ todo[c] > 0
    /\ \E rq \in Requests :
        LET r == Asked(IF Flaw = "get" THEN "POST" ELSE rq[1], rq[2], rq[3], rq[4])
            a == IF Flaw = "wrap" /\ r.ok THEN [i \in DOMAIN r.a |-> r.a[i] % 256] ELSE r.a
        IN
        /\ Request(c, rq[1], rq[2], rq[3], rq[4], T)
        /\ job' = [job EXCEPT ![c] = [Idle EXCEPT !.pc = IF r.ok THEN "run" ELSE "refuse", !.op = r.op, !.a = a, !.ct = rq[3],
                                                  !.rq = r.why, !.t = T]]
        /\ trail' = Append(trail, <<c, rq>>)
    /\ todo' = [todo EXCEPT ![c] = @ - 1]
    /\ UNCHANGED <<uu, fans, sv, locks, line, asking, faults>>

\* The operation begins: it decides which exchanges it takes.
Begin(c) ==
    LET j == job[c]
        cl == Class(j.op)
        prof == Decode("GetFanProfiles", sv["profiles"])
        cur == IF j.op = "SetComfortTemp" THEN Decode("GetTemperatures", sv["temps"]).Comfort
               ELSE IF j.op = "SetFanProfile" THEN Duties(prof, j.a[1])[1]
               ELSE prof.CurrentMode
        run(steps, tgt, mod) == [j EXCEPT !.pc = "steps", !.steps = steps, !.tgt = tgt, !.mod = mod, !.o = cur]
        no == [j EXCEPT !.pc = "refuse", !.rq = "argument"]
        order == <<"boot", "bypass", "temps", "fans", "profiles", "errors">>
    IN
    /\ j.pc = "run"
    /\ IF cl = "none" THEN TRUE ELSE locks[cl] = 0
    /\ locks' = IF cl = "none" THEN locks ELSE [locks EXCEPT ![cl] = c]
    /\ job' = [job EXCEPT ![c] =
         CASE IsRead(j.op) -> run(<<>>, 0, FALSE)
           [] j.op = "FlushCache" -> run(SelectSeq(order, LAMBDA ds : ds \in Named(j.a[1])), 0, FALSE)
           [] j.op = "SetComfortTemp" ->
                IF ~ComfortOk(j.a[1]) THEN no
                ELSE IF cur = j.a[1] THEN run(<<>>, cur, FALSE) ELSE run(<<"cmd", "temps">>, j.a[1], TRUE)
           [] j.op = "SetFanProfile" ->
                IF ~ProfileArgsOk(j.a) THEN no
                ELSE IF Duties(prof, j.a[1]) = <<j.a[2], j.a[2]>> THEN run(<<>>, j.a[2], FALSE)
                ELSE run(<<"rmw", "cmd", "profiles">>, j.a[2], TRUE)
           [] OTHER ->
                LET s == SpeedTarget(j.a, cur) IN
                IF s = 0 THEN no
                ELSE IF s = cur THEN run(<<>>, s, FALSE) ELSE run(<<"cmd", "fans", "profiles">>, s, TRUE)]
    /\ UNCHANGED <<hvars, uu, fans, sv, todo, line, asking, faults, trail>>

-----------------------------------------------------------------------------
(* Exchanges *)
Command(c) ==
    LET j == job[c] IN
    CASE j.op = "SetComfortTemp" -> [cmd |-> SetComfortCmd, d |-> <<ComfortByte(j.tgt)>>]
      [] j.op = "SetFanProfile" -> [cmd |-> SetProfilesCmd,
            d |-> ProfilesPayload(WithProfile(Decode("GetFanProfiles", sv["profiles"]), j.a[1] - 1, j.tgt))]
      [] OTHER -> [cmd |-> SetSpeedCmd, d |-> <<j.tgt>>]

Out1(c) ==
    LET j == job[c]
        s == Head(j.steps)
        q == IF s = "cmd" THEN Command(c) ELSE [cmd |-> CmdOf(IF s = "rmw" THEN "profiles" ELSE s), d |-> <<>>]
    IN
    /\ j.pc = "steps" /\ j.steps # <<>> /\ line = 0
    /\ \E k \in {"ok"} \cup (IF faults < MaxFaulty THEN Kinds ELSE {}) :
        LET u2 == IF k = "ok" /\ s = "cmd" THEN
                      (CASE j.op = "SetComfortTemp" -> [uu EXCEPT ![2] = q.d[1]]
                         [] j.op = "SetFanProfile" -> <<uu[1], uu[2]>> \o q.d
                         [] OTHER -> [uu EXCEPT ![1] = q.d[1]])
                  ELSE uu
            p == IF k = "ok" /\ s # "cmd" THEN Payload(IF s = "rmw" THEN "profiles" ELSE s) ELSE <<>>
        IN
        /\ uu' = u2
        /\ faults' = IF k = "ok" THEN faults ELSE faults + 1
        /\ asking' = [NoReq EXCEPT !.on = TRUE, !.cmd = q.cmd, !.k = k, !.p = p]
        /\ Ask(q.cmd, q.d, k, p, T)
    /\ line' = c
    /\ UNCHANGED <<fans, sv, job, todo, locks, trail>>

\* The fans reach the duties of the profile.
Ramp ==
    /\ fans # DutiesIn(uu, uu[1]) /\ uu[1] \in 1..4
    /\ fans' = DutiesIn(uu, uu[1])
    /\ UNCHANGED <<hvars, uu, sv, job, todo, locks, line, asking, faults, trail>>

Back(c) ==
    LET j == job[c]
        s == Head(j.steps)
        ds == IF s = "rmw" THEN "profiles" ELSE s
        ok == asking.k = "ok"
        reached == LET v == Decode("GetFans", asking.p) IN
                   <<v.InPercent, v.OutPercent>> = Duties(Decode("GetFanProfiles", sv["profiles"]), j.tgt)
        reading == j.op = "SetFanSpeed" /\ s = "fans"
        next == CASE reading /\ ok /\ ~reached /\ j.rd < 1 -> [j EXCEPT !.rd = @ + 1]
                  [] reading /\ ok /\ ~reached -> [j EXCEPT !.ok = FALSE, !.steps = Tail(@)]
                  [] reading /\ ~ok /\ j.rd < 1 -> [j EXCEPT !.rd = @ + 1]
                  [] ~ok /\ j.op = "FlushCache" -> [j EXCEPT !.ok = FALSE, !.steps = Tail(@)]
                  [] ~ok /\ s \in {"cmd", "rmw"} -> [j EXCEPT !.ok = FALSE, !.steps = IF j.op = "SetFanSpeed" THEN <<"profiles">> ELSE <<>>]
                  [] ~ok /\ reading -> [j EXCEPT !.ok = FALSE, !.steps = Tail(@)]
                  [] OTHER -> [j EXCEPT !.steps = Tail(@)]
    IN
    /\ line = c
    /\ IF ok THEN Answer(T) ELSE UNCHANGED hvars
    /\ sv' = IF ok /\ s \notin {"cmd"} THEN [sv EXCEPT ![ds] = asking.p] ELSE sv
    /\ job' = [job EXCEPT ![c] = next]
    /\ line' = 0 /\ asking' = NoReq
    /\ UNCHANGED <<uu, fans, todo, locks, faults, trail>>

-----------------------------------------------------------------------------
(* Responses *)
Lower == [Comfort |-> "comfort", Factor |-> "factor", Filter |-> "filter", MajorVersion |-> "majorVersion", Success |-> "success",
          Modified |-> "modified", InPercent |-> "inPercent", OutAway |-> "outAway"]
Broken(m) ==
    CASE Flaw = "number" -> [i \in DOMAIN Schema[m] |-> [Schema[m][i] EXCEPT !.n = IF @ = 2 THEN 3 ELSE IF @ = 3 THEN 2 ELSE @]]
      [] OTHER -> Schema[m]
EncBinary(m, r) == FoldLeft(LAMBDA a, d : a \o EncField(d, r[d.f]), <<>>, Broken(m))
EncText(m, r) ==
    LET all == EncJson(m, r)
        sign(e) == IF e[2] = "num" /\ e[3] < 0 THEN <<e[1], "neg", e[3]>> ELSE e
        js == [i \in DOMAIN all |-> sign(all[i])]
    IN CASE Flaw = "camel" -> [i \in DOMAIN js |-> IF js[i][1] \in DOMAIN Lower THEN <<Lower[js[i][1]], js[i][2], js[i][3]>> ELSE js[i]]
         [] Flaw = "skip" -> SelectSeq(js, LAMBDA e : r[e[1]] # Default(FieldOf(m, e[1]).t))
         [] OTHER -> js

Elapsed == <<49, 115>>
Result(j) ==
    CASE IsRead(j.op) -> Value(ReadOf[j.op], sv[ReadOf[j.op]])
      [] j.op = "FlushCache" -> [Success |-> j.ok /\ Named(j.a[1]) # {}, ReqTime |-> Elapsed]
      [] j.op = "SetComfortTemp" -> [Modified |-> j.mod, OriginalTemp |-> IF Flaw = "mixup" THEN j.tgt ELSE j.o, TargetTemp |-> j.tgt, ReqTime |-> Elapsed]
      [] OTHER -> [Modified |-> j.mod, OriginalSpeed |-> j.o, TargetSpeed |-> j.tgt, ReqTime |-> Elapsed]

Respond(c) ==
    LET j == job[c]
        m == Out[j.op]
        cl == Class(j.op)
        js == IF Flaw = "type" THEN TRUE ELSE IsJson(j.ct)
        ct == IF js THEN "application/json" ELSE "application/protobuf"
        text == IF js = IsJson(j.ct) THEN EncText(m, Result(j)) ELSE <<123, 125>>
    IN
    /\ \/ j.pc = "refuse"
       \/ j.pc = "steps" /\ j.steps = <<>>
    /\ IF Limit > 0 /\ T > j.t + Limit THEN Lost(c, T)
       ELSE IF j.pc = "refuse" THEN
            IF j.rq = "argument"
            THEN Response(c, IF Flaw = "plain" THEN 500 ELSE 400, "application/json", IF Flaw = "plain" THEN "internal" ELSE "invalid_argument", <<>>, T)
            ELSE Response(c, IF j.rq = "malformed" THEN 400 ELSE IF Flaw = "lost" THEN 405 ELSE 404, "application/json", "bad_route", <<>>, T)
       ELSE IF ~j.ok /\ j.op # "FlushCache" /\ Flaw # "hush" THEN Response(c, 500, "application/json", "internal", <<>>, T)
       ELSE Response(c, 200, ct, "", IF js THEN text ELSE EncBinary(m, Result(j)), T)
    /\ job' = [job EXCEPT ![c] = Idle]
    /\ locks' = IF cl # "none" /\ locks[cl] = c THEN [locks EXCEPT ![cl] = 0] ELSE locks
    /\ UNCHANGED <<uu, fans, sv, todo, line, asking, faults, trail>>

\* Finished clients end the run.
Over == (\A c \in Clients : job[c].pc = "idle" /\ todo[c] = 0) /\ UNCHANGED vars

Next == \/ \E c \in Clients : Post(c) \/ Begin(c) \/ Out1(c) \/ Back(c) \/ Respond(c)
        \/ Ramp
        \/ Over
Spec == Init /\ [][Next]_vars

\* Histories of requests do not matter for what can follow, nor does absolute time.
TypeOK == line \in {0} \cup Clients
=============================================================================
