------------------------------ MODULE ServerImpl ------------------------------
(***************************************************************************)
(* The server as it is built: the worker, one process per remote call, the *)
(* locks, the caches, the tickers and the flush channels, next to a unit   *)
(* that answers or does not.  It takes the actions of Server in lock-step, *)
(* so that checking it decides whether the design has the properties.      *)
(* Flaw leaves something out, to see that Server notices.                  *)
(*                                                                         *)
(* Process 0 is the worker (and start-up before it), the others make       *)
(* calls.  A refresh or an exchange with the unit is a subroutine (sub) of *)
(* the process.  Time moves on when nobody can take a step.                *)
(***************************************************************************)
EXTENDS Server

CONSTANTS
    Callers,    \* processes that make calls
    Prog,       \* what they call, in order: function to sequences of [op, a]
    Kinds,      \* ways in which the unit fails: "none", "mute", "zero", "werr"
    MaxFaulty,  \* how often it does
    Ramps,      \* times that the fans may take to reach their speed, Never: they do not
    Delay,      \* time that the unit takes to answer
    Timeout,    \* time that the server waits for an answer
    Gap,        \* time between readings
    Unit0,      \* the unit's settings at first
    Others,     \* settings that somebody else may make
    Leaving,    \* who makes a call may go away
    From, Horizon,   \* calls are made between these times
    Final,      \* end of the run
    Flaw, Record

VARIABLES
    pc, loc, sub,    \* per process: where it is, its data, its subroutine
    fan, temp, cl,   \* locks: fan changes, temperature changes, per data set; -1 if free
    link,            \* the exchange in progress
    cache, stamp,    \* per data set: payload that is served, age
    tick,            \* tickers that have fired
    shown, rampT,    \* duties that the unit shows until time rampT, -1: for good
    n, faulty,       \* requests, failures so far
    last0,           \* call number
    h                \* what has been chosen, for replay
ivars == <<pc, loc, sub, fan, temp, cl, link, cache, stamp, tick, shown, rampT, n, faulty, last0, h>>
vars == <<svars, ivars>>

\* Time since start-up.
Since == IF st = "on" THEN now - t0 ELSE 0

Procs == {0} \cup Callers
Free == -1
Never == 99
NoLink == [by |-> Free, due |-> 0, k |-> "", p |-> <<>>]
NoSub == [st |-> "idle", ds |-> "none", cmd |-> 0, d |-> <<>>, force |-> FALSE, at |-> 0, ok |-> TRUE, p |-> <<>>]
Loc0 == [id |-> 0, i |-> 1, op |-> "", a |-> <<>>, o |-> 0, tgt |-> 0, in |-> 0, out |-> 0, rd |-> 0, wake |-> 0,
         ok |-> TRUE, code |-> "", v |-> 0, list |-> <<>>, for |-> Free, good |-> TRUE, left |-> FALSE]

Order == <<"boot", "bypass", "temps", "fans", "profiles", "errors">>

Init ==
    /\ ServerInit(Unit0, Others = {} /\ MaxFaulty = 0)
    /\ pc = [p \in Procs |-> IF p = 0 THEN "start" ELSE "next"]
    /\ loc = [p \in Procs |-> Loc0]
    /\ sub = [p \in Procs |-> NoSub]
    /\ fan = Free /\ temp = Free /\ cl = [ds \in Sets |-> Free]
    /\ link = NoLink
    /\ cache = [ds \in Sets |-> <<>>] /\ stamp = [ds \in Sets |-> -1000]
    /\ tick = {}
    /\ shown = DutiesIn(Unit0, SpeedIn(Unit0)) /\ rampT = 0
    /\ n = 0 /\ faulty = 0 /\ last0 = 0 /\ h = <<>>

-----------------------------------------------------------------------------
(* The unit *)

ShownNow == IF rampT >= 0 /\ now >= rampT /\ SpeedIn(u) \in 1..4 THEN DutiesIn(u, SpeedIn(u)) ELSE shown

Answer(ds) ==
    CASE ds = "profiles" -> SubSeq(u, 3, 8) \o <<n % 200, 7, u[1], 1, u[9], u[10], 0, 0>>
      [] ds = "fans" -> <<ShownNow[1], ShownNow[2], 0, n % 200, 0, 9>>
      [] ds = "temps" -> <<u[2], 60, 60, 60, n % 200, 15, 60, 60, 60>>
      [] ds = "boot" -> <<1, 2, n % 200, 67, 65, 51, 53, 48, 32, 76, 117, 120, 101>>
      [] ds = "bypass" -> <<0, 0, 1, 2, n % 200, 0, 1>>
      [] OTHER -> <<0, 0, 0, 0, 0, 0, 0, 0, IF n % 2 = 0 THEN 0 ELSE 1, 0, 0, 0, 0, 0, 0, 0, 0>>

After(cmd, d) ==
    CASE cmd = SetSpeedCmd -> [u EXCEPT ![1] = d[1]]
      [] cmd = SetComfortCmd -> [u EXCEPT ![2] = d[1]]
      [] OTHER -> <<u[1], u[2]>> \o d

\* The ways in which it can go.
How(ds) ==
    {"ok"} \cup (IF faulty >= MaxFaulty THEN {}
                 ELSE {k \in Kinds : IF ds = "none" THEN k \in {"none", "mute", "werr"} ELSE k \in {"none", "zero", "werr"}})

-----------------------------------------------------------------------------
(* Subroutines *)

Refresh(ds, force) == [NoSub EXCEPT !.st = "lock", !.ds = ds, !.cmd = CmdOf(ds), !.force = force]
Get(ds) == [NoSub EXCEPT !.st = "bare", !.ds = ds, !.cmd = CmdOf(ds)]
SetTo(cmd, d) == [NoSub EXCEPT !.st = "bare", !.cmd = cmd, !.d = d]

Back(p, ok, pl) == sub' = [sub EXCEPT ![p] = [NoSub EXCEPT !.ok = ok, !.p = pl]]

CanLock(p) == sub[p].st = "lock" /\ cl[sub[p].ds] = Free
DoLock(p) ==
    LET s == sub[p] IN
    /\ CanLock(p)
    /\ IF ~s.force /\ now - stamp[s.ds] <= Fresh
       THEN Back(p, TRUE, <<>>) /\ UNCHANGED cl
       ELSE /\ sub' = [sub EXCEPT ![p].st = "link", ![p].at = now]
            /\ cl' = [cl EXCEPT ![s.ds] = p]
    /\ UNCHANGED <<svars, pc, loc, fan, temp, link, cache, stamp, tick, shown, rampT, n, faulty, last0, h>>

CanAsk(p) == sub[p].st \in {"link", "bare"} /\ link.by = Free
DoAsk(p) ==
    LET s == sub[p]
        isSet == s.d # <<>>
    IN
    /\ CanAsk(p)
    /\ \E k \in How(IF isSet THEN "none" ELSE s.ds) :
        LET applied == isSet /\ k \in {"ok", "mute"}
            pl == IF isSet \/ k # "ok" THEN <<>> ELSE Answer(s.ds)
            speed == applied /\ s.cmd = SetSpeedCmd
        IN
        /\ Ask(IF p = 0 THEN 0 ELSE loc[p].id, s.cmd, s.d, k, pl, IF applied THEN After(s.cmd, s.d) ELSE u, now)
        /\ link' = [by |-> p, k |-> k, p |-> pl,
                    due |-> now + (CASE k \in {"ok", "zero"} -> Delay [] k = "werr" -> 0 [] OTHER -> Timeout)]
        /\ faulty' = IF k = "ok" THEN faulty ELSE faulty + 1
        /\ \E r \in IF speed THEN Ramps ELSE {0} :
            /\ rampT' = IF speed THEN (IF r = Never THEN -1 ELSE now + r) ELSE rampT
            /\ shown' = IF applied THEN ShownNow ELSE shown
            /\ h' = IF Record THEN Append(h, [h |-> "q", k |-> k, r |-> IF speed THEN r ELSE -9]) ELSE h
        /\ n' = n + 1
    /\ sub' = [sub EXCEPT ![p].st = IF @ = "link" THEN "wait" ELSE "barewait"]
    /\ UNCHANGED <<pc, loc, fan, temp, cl, cache, stamp, tick, last0>>

CanDone(p) == sub[p].st \in {"wait", "barewait"} /\ now >= link.due
DoDone(p) ==
    LET s == sub[p]
        ok == link.k = "ok"
        ds == s.ds
    IN
    /\ CanDone(p)
    /\ IF link.k \in {"ok", "zero"} THEN Accept(now) ELSE UNCHANGED svars
    /\ link' = NoLink
    /\ Back(p, ok \/ (link.k = "zero" /\ Flaw = "blind"), link.p)
    /\ IF s.st = "wait"
       THEN /\ cl' = [cl EXCEPT ![ds] = Free]
            /\ cache' = IF ok THEN [cache EXCEPT ![ds] = link.p]
                        ELSE IF Flaw = "clear" THEN [cache EXCEPT ![ds] = <<>>] ELSE cache
            /\ stamp' = IF ok \/ Flaw = "stamp" THEN [stamp EXCEPT ![ds] = s.at] ELSE stamp
       ELSE UNCHANGED <<cl, cache, stamp>>
    /\ UNCHANGED <<pc, loc, fan, temp, tick, shown, rampT, n, faulty, last0, h>>

Ready(p) == sub[p].st = "idle"

-----------------------------------------------------------------------------
(* Start-up and the worker *)

To(p, where) == pc' = [pc EXCEPT ![p] = where]

DoStart ==
    /\ pc[0] = "start" /\ Start(now)
    /\ To(0, "boot") /\ loc' = [loc EXCEPT ![0].list = Order]
    /\ UNCHANGED <<sub, fan, temp, cl, link, cache, stamp, tick, shown, rampT, n, faulty, last0, h>>

\* The next refresh of a list.
Step0(force) ==
    /\ sub' = [sub EXCEPT ![0] = Refresh(Head(loc[0].list), force)]
    /\ loc' = [loc EXCEPT ![0].list = Tail(@), ![0].good = @ /\ sub[0].ok]

DoBoot ==
    /\ pc[0] = "boot" /\ Ready(0)
    /\ IF loc[0].list # <<>> /\ ~(Flaw = "giveup" /\ ~sub[0].ok)
       THEN /\ Step0(TRUE) /\ UNCHANGED <<svars, pc>>
       ELSE /\ Started(now) /\ To(0, "idle") /\ sub' = [sub EXCEPT ![0] = NoSub]
            /\ loc' = [loc EXCEPT ![0] = Loc0]
    /\ UNCHANGED <<fan, temp, cl, link, cache, stamp, tick, shown, rampT, n, faulty, last0, h>>

Refreshed(c) == CASE c = "fast" -> <<"temps", "fans">> [] c = "slow" -> <<"profiles", "bypass">> [] OTHER -> <<"boot", "errors">>

Named0(k) == CASE k = 0 -> <<"boot">> [] k = 1 -> <<"fans">> [] k = 2 -> <<"temps">> [] k = 3 -> <<"profiles">>
               [] k = 4 -> <<"bypass">> [] k = 10 -> Order [] OTHER -> <<>>

CanTake == pc[0] = "idle" /\ (tick # {} \/ \E p \in Callers : pc[p] = "send")
DoTake ==
    /\ pc[0] = "idle"
    /\ \/ \E c \in tick :
            /\ tick' = tick \ {c}
            /\ loc' = [loc EXCEPT ![0].list = Refreshed(c), ![0].for = Free, ![0].good = TRUE]
            /\ To(0, "run")
       \/ \E p \in Callers :
            /\ pc[p] = "send"
            /\ loc' = [loc EXCEPT ![0].list = Named0(loc[p].a[1]), ![0].for = p, ![0].good = Named0(loc[p].a[1]) # <<>>]
            /\ pc' = [pc EXCEPT ![p] = "recv", ![0] = "run"]
            /\ UNCHANGED tick
    /\ sub' = [sub EXCEPT ![0] = NoSub]
    /\ UNCHANGED <<svars, fan, temp, cl, link, cache, stamp, shown, rampT, n, faulty, last0, h>>

DoRun ==
    LET w == loc[0]
        good == w.good /\ sub[0].ok
    IN
    /\ pc[0] = "run" /\ Ready(0)
    /\ IF Flaw = "stop" /\ ~sub[0].ok /\ w.for = Free
       THEN To(0, "gone") /\ UNCHANGED <<loc, sub>>
       ELSE IF w.list # <<>> THEN Step0(w.for # Free /\ Flaw # "lazy") /\ UNCHANGED pc
       ELSE IF w.for = Free THEN To(0, "idle") /\ UNCHANGED <<loc, sub>>
       ELSE IF pc[w.for] # "recv" THEN To(0, "gone") /\ UNCHANGED <<loc, sub>>
       ELSE /\ pc' = [pc EXCEPT ![0] = "idle", ![w.for] = "ret"]
            /\ loc' = [loc EXCEPT ![w.for].v = [Success |-> good \/ (Flaw = "praise" /\ Named0(loc[w.for].a[1]) # <<>>)]]
            /\ UNCHANGED sub
    /\ UNCHANGED <<svars, fan, temp, cl, link, cache, stamp, tick, shown, rampT, n, faulty, last0, h>>

-----------------------------------------------------------------------------
(* Calls *)

\* The first call is made at some time, the others follow at once.
CanCall(p) == /\ pc[p] = "next" /\ loc[p].i <= Len(Prog[p]) /\ st = "on"
              /\ loc[p].i = 1 => Since >= From /\ Since <= Horizon
DoCall(p) ==
    LET r == Prog[p][loc[p].i] IN
    /\ CanCall(p)
    /\ Call(last0 + 1, r.op, r.a, now)
    /\ last0' = last0 + 1
    /\ loc' = [loc EXCEPT ![p] = [Loc0 EXCEPT !.id = last0 + 1, !.i = loc[p].i + 1, !.op = r.op, !.a = r.a]]
    /\ To(p, CASE IsRead(r.op) -> IF Flaw = "through" THEN "through" ELSE "read"
               [] r.op = "FlushCache" -> "send"
               [] OTHER -> "check")
    /\ h' = IF Record THEN Append(h, [h |-> "call", c |-> p, op |-> r.op, a |-> r.a, t |-> now - t0]) ELSE h
    /\ UNCHANGED <<sub, fan, temp, cl, link, cache, stamp, tick, shown, rampT, n, faulty>>

\* A step of process p that the outside does not see.
Quietly(p, where, l) ==
    /\ To(p, where)
    /\ loc' = [loc EXCEPT ![p] = l]
    /\ UNCHANGED <<svars, link, cache, stamp, tick, shown, rampT, n, faulty, last0, h>>
Same == UNCHANGED <<sub, fan, temp, cl>>

Failed(l) == [l EXCEPT !.ok = FALSE, !.code = "internal", !.v = <<>>]
Refuse(l) == [l EXCEPT !.ok = FALSE, !.code = Err, !.v = <<>>]
Answered(l, modified) ==
    [l EXCEPT !.ok = TRUE, !.v = IF l.op = "SetComfortTemp"
                                 THEN [Modified |-> modified, OriginalTemp |-> l.o, TargetTemp |-> l.tgt]
                                 ELSE [Modified |-> modified, OriginalSpeed |-> l.o, TargetSpeed |-> l.tgt]]

\* The lock that the operation takes.
FanOp(op) == Class(op) = "fan"
Enter(p) == IF FanOp(loc[p].op)
            THEN /\ fan = Free \/ Flaw = "nofan"
                 /\ fan' = p /\ UNCHANGED temp
            ELSE temp = Free /\ temp' = p /\ UNCHANGED fan
CanEnter(p) == IF FanOp(loc[p].op) THEN fan = Free \/ Flaw = "nofan" ELSE temp = Free

\* The cache that the decision is based on.
Basis(op) == IF FanOp(op) THEN "profiles" ELSE "temps"

Wrap(a) == IF Flaw = "wrap" THEN [i \in DOMAIN a |-> a[i] % 256] ELSE a

DoCheck(p) ==    \* what can be refused without a look at the cache
    LET l == loc[p]
        a == Wrap(l.a)
        bad == \/ l.op = "SetFanProfile" /\ ~ProfileArgsOk(a)
               \/ l.op = "SetComfortTemp" /\ a[1] > 255
    IN
    /\ pc[p] = "check"
    /\ IF bad THEN Quietly(p, "ret", Refuse(l))
       ELSE IF Flaw = "early" /\ l.op = "SetComfortTemp"
       THEN Quietly(p, "enter", [l EXCEPT !.o = Value("temps", cache["temps"]).Comfort])
       ELSE Quietly(p, "enter", l)
    /\ Same

DoEnter(p) ==
    /\ pc[p] = "enter" /\ Enter(p)
    /\ Quietly(p, "decide", loc[p])
    /\ UNCHANGED <<sub, cl>>

\* Without synchronisation: somebody may be writing.
Races(p, ds) == Flaw = "nolock" /\ cl[ds] \notin {Free, p}
CanLook(p, ds) == cl[ds] = Free \/ Flaw = "nolock"

DoDecide(p) ==
    LET l == loc[p]
        a == Wrap(l.a)
        v == Value(Basis(l.op), cache[Basis(l.op)])
        o == CASE l.op = "SetFanSpeed" -> v.CurrentMode
               [] l.op = "SetFanProfile" -> Duties(v, a[1])[1]
               [] OTHER -> IF Flaw = "early" THEN l.o ELSE v.Comfort
        tgt == CASE l.op = "SetFanSpeed" -> SpeedTarget(a, o)
                 [] l.op = "SetFanProfile" -> a[2]
                 [] OTHER -> a[1]
        l1 == [l EXCEPT !.o = o, !.tgt = tgt]
        same == CASE l.op = "SetFanProfile" -> o = tgt /\ (Duties(v, a[1])[2] = tgt \/ Flaw = "inonly")
                  [] OTHER -> o = tgt
    IN
    /\ pc[p] = "decide" /\ CanLook(p, Basis(l.op))
    /\ IF Races(p, Basis(l.op))
       THEN /\ Race(now) /\ To(p, "gone") /\ UNCHANGED <<loc, link, cache, stamp, tick, shown, rampT, n, faulty, last0, h, sub>>
       ELSE IF l.op = "SetFanSpeed" /\ tgt = 0 THEN Quietly(p, "leave", Refuse(l1)) /\ UNCHANGED sub
       ELSE IF same THEN Quietly(p, "leave", Answered(l1, FALSE)) /\ UNCHANGED sub
       ELSE IF l.op = "SetComfortTemp" /\ ~ComfortOk(tgt) THEN Quietly(p, "leave", Failed(l1)) /\ UNCHANGED sub
       ELSE /\ Quietly(p, IF l.op = "SetFanProfile" THEN "rmw" ELSE "set", l1)
            /\ sub' = [sub EXCEPT ![p] = CASE l.op = "SetFanSpeed" -> SetTo(SetSpeedCmd, <<tgt>>)
                                          [] l.op = "SetFanProfile" -> Get("profiles")
                                          [] OTHER -> SetTo(SetComfortCmd, <<ComfortByte(tgt)>>)]
    /\ UNCHANGED <<fan, temp, cl>>

DoRmw(p) ==
    LET l == loc[p] IN
    /\ pc[p] = "rmw" /\ Ready(p)
    /\ IF ~sub[p].ok THEN Quietly(p, "leave", Failed(l)) /\ UNCHANGED sub
       ELSE /\ Quietly(p, "set", l)
            /\ sub' = [sub EXCEPT ![p] = SetTo(SetProfilesCmd,
                         ProfilesPayload(WithProfile(Decode("GetFanProfiles", sub[p].p), l.a[1] - 1, l.tgt)))]
    /\ UNCHANGED <<fan, temp, cl>>

\* The command has been acknowledged, or not.
DoSet(p) ==
    LET l == loc[p] IN
    /\ pc[p] = "set" /\ Ready(p)
    /\ IF ~sub[p].ok
       THEN IF l.op = "SetFanSpeed" /\ Flaw # "norefresh"
            THEN Quietly(p, "refresh", Failed(l)) /\ sub' = [sub EXCEPT ![p] = Refresh("profiles", TRUE)]
            ELSE Quietly(p, IF Flaw = "leak" THEN "ret" ELSE "leave", Failed(l)) /\ UNCHANGED sub
       ELSE IF l.op = "SetFanSpeed"
       THEN Quietly(p, "lookup", l) /\ UNCHANGED sub
       ELSE Quietly(p, "refresh", Answered(l, TRUE)) /\ sub' = [sub EXCEPT ![p] = Refresh(Basis(l.op), TRUE)]
    /\ UNCHANGED <<fan, temp, cl>>

DoLookup(p) ==
    LET d == Duties(Value("profiles", cache["profiles"]), loc[p].tgt) IN
    /\ pc[p] = "lookup" /\ cl["profiles"] = Free
    /\ Quietly(p, "reading", [loc[p] EXCEPT !.in = d[1], !.out = d[2], !.rd = 1])
    /\ sub' = [sub EXCEPT ![p] = Refresh("fans", TRUE)]
    /\ UNCHANGED <<fan, temp, cl>>

DoReading(p) ==
    LET l == loc[p]
        v == Value("fans", cache["fans"])
        hit == (sub[p].ok \/ Flaw = "stale") /\ v.InPercent = l.in /\ (v.OutPercent = l.out \/ Flaw = "supply")
    IN
    /\ pc[p] = "reading" /\ Ready(p) /\ cl["fans"] = Free
    /\ IF hit THEN Quietly(p, "refresh", Answered(l, TRUE)) /\ sub' = [sub EXCEPT ![p] = Refresh("profiles", TRUE)]
       ELSE Quietly(p, "sleep", [l EXCEPT !.wake = now + Gap]) /\ UNCHANGED sub
    /\ UNCHANGED <<fan, temp, cl>>

DoSleep(p) ==
    LET l == loc[p] IN
    /\ pc[p] = "sleep" /\ now >= l.wake
    /\ IF l.rd < Readings + (IF Flaw = "more" THEN 1 ELSE 0)
       THEN Quietly(p, "reading", [l EXCEPT !.rd = @ + 1]) /\ sub' = [sub EXCEPT ![p] = Refresh("fans", TRUE)]
       ELSE IF Flaw = "norefresh" THEN Quietly(p, "leave", Failed(l)) /\ UNCHANGED sub
       ELSE Quietly(p, "refresh", IF Flaw = "hope" THEN Answered(l, TRUE) ELSE Failed(l))
            /\ sub' = [sub EXCEPT ![p] = Refresh("profiles", TRUE)]
    /\ UNCHANGED <<fan, temp, cl>>

DoRefresh(p) ==
    /\ pc[p] = "refresh" /\ Ready(p)
    /\ Quietly(p, "leave", loc[p]) /\ Same

DoLeave(p) ==
    /\ pc[p] = "leave"
    /\ Quietly(p, "ret", loc[p])
    /\ fan' = IF fan = p THEN Free ELSE fan
    /\ temp' = IF temp = p THEN Free ELSE temp
    /\ UNCHANGED <<sub, cl>>

DoRead(p) ==
    LET l == loc[p]
        ds == ReadOf[l.op]
    IN
    /\ pc[p] = "read" /\ cl[ds] = Free
    /\ Quietly(p, "ret", [l EXCEPT !.v = Value(ds, cache[ds])]) /\ Same

\* (flawed) a read that goes to the unit
DoThrough(p) ==
    /\ pc[p] = "through"
    /\ Quietly(p, "read", loc[p])
    /\ sub' = [sub EXCEPT ![p] = Refresh(ReadOf[loc[p].op], TRUE)]
    /\ UNCHANGED <<fan, temp, cl>>

DoRet(p) ==
    LET l == loc[p] IN
    /\ pc[p] = "ret" /\ Ready(p)
    /\ Ret(l.id, l.ok, FALSE, l.code, l.v, now)
    /\ To(p, "next")
    /\ loc' = [loc EXCEPT ![p] = [Loc0 EXCEPT !.i = l.i]]
    /\ UNCHANGED <<sub, fan, temp, cl, link, cache, stamp, tick, shown, rampT, n, faulty, last0, h>>

Able(p) ==
    \/ CanLock(p) \/ CanAsk(p) \/ CanDone(p)
    \/ Ready(p) /\ CASE pc[p] = "enter" -> CanEnter(p)
                     [] pc[p] = "decide" -> CanLook(p, Basis(loc[p].op))
                     [] pc[p] = "lookup" -> cl["profiles"] = Free
                     [] pc[p] = "reading" -> cl["fans"] = Free
                     [] pc[p] = "sleep" -> now >= loc[p].wake
                     [] pc[p] = "read" -> cl[ReadOf[loc[p].op]] = Free
                     [] pc[p] = "next" -> CanCall(p) /\ loc[p].i > 1
                     [] pc[p] \in {"send", "recv", "gone", "start", "boot", "idle"} -> FALSE
                     [] OTHER -> TRUE

Move(p) ==
    \/ DoLock(p) \/ DoAsk(p) \/ DoDone(p)
    \/ /\ p # 0 /\ Ready(p)
       /\ \/ DoCheck(p) \/ DoEnter(p) \/ DoDecide(p) \/ DoRmw(p) \/ DoSet(p) \/ DoLookup(p) \/ DoReading(p)
          \/ DoSleep(p) \/ DoRefresh(p) \/ DoLeave(p) \/ DoRead(p) \/ DoThrough(p) \/ DoRet(p)

-----------------------------------------------------------------------------
(* Time *)

MarkDue == st = "on" /\ now >= mark + Fast
DoMark ==
    LET m == (mark + Fast - t0) \div Fast IN
    /\ MarkDue
    /\ Mark(m, now)
    /\ tick' = tick \cup {"fast"} \cup (IF m % (Slow \div Fast) = 0 THEN {"slow"} ELSE {})
                    \cup (IF m % (Glacial \div Fast) = 0 THEN {"glacial"} ELSE {})
    /\ UNCHANGED <<pc, loc, sub, fan, temp, cl, link, cache, stamp, shown, rampT, n, faulty, last0, h>>

\* Whoever makes the call goes away. The server does not care.
DoGo(p) ==
    /\ p \in Leaving /\ pc[p] # "next" /\ ~loc[p].left
    /\ Leave(loc[p].id, now)
    /\ loc' = [loc EXCEPT ![p].left = TRUE]
    /\ h' = IF Record THEN Append(h, [h |-> "leave", c |-> p, t |-> now - t0]) ELSE h
    /\ UNCHANGED <<pc, sub, fan, temp, cl, link, cache, stamp, tick, shown, rampT, n, faulty, last0>>

\* (flawed) a flush that is not waited for by its caller any more
DoAbandon(p) ==
    /\ Flaw = "abandon" /\ pc[p] = "recv" /\ loc[p].left
    /\ Quietly(p, "ret", [Failed(loc[p]) EXCEPT !.code = "canceled"]) /\ Same

DoOther(s) ==
    /\ st = "on" /\ Since >= From /\ Since <= Horizon /\ u # s
    /\ External(s, now)
    /\ shown' = ShownNow
    /\ h' = IF Record THEN Append(h, [h |-> "ext", u |-> s, t |-> now - t0]) ELSE h
    /\ UNCHANGED <<pc, loc, sub, fan, temp, cl, link, cache, stamp, tick, rampT, n, faulty, last0>>

Pending == pc[0] = "start" \/ (pc[0] \in {"boot", "run"} /\ Ready(0)) \/ CanTake \/ \E p \in Procs : Able(p)

Idling == \A p \in Callers : pc[p] = "next" /\ (loc[p].i > Len(Prog[p]) \/ (loc[p].i = 1 /\ Since > Horizon))

DoTick ==
    /\ ~Pending /\ Since < Final
    /\ Quiet(now + 1)
    /\ UNCHANGED ivars

DoEnd ==
    /\ ~Pending /\ Since = Final /\ pc[0] # "over"
    /\ IF Idling THEN End(now) ELSE Hang(now)
    /\ To(0, "over")
    /\ UNCHANGED <<loc, sub, fan, temp, cl, link, cache, stamp, tick, shown, rampT, n, faulty, last0, h>>

Next ==
    IF MarkDue THEN DoMark
    ELSE \/ DoStart \/ DoBoot \/ DoTake \/ DoRun
         \/ \E p \in Procs : Move(p)
         \/ \E p \in Callers : DoCall(p) \/ DoGo(p) \/ DoAbandon(p)
         \/ \E s \in Others : DoOther(s)
         \/ DoTick \/ DoEnd

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* A lock is held by somebody who is about to give it back.
Locks ==
    /\ \A ds \in Sets : cl[ds] # Free => sub[cl[ds]].st \in {"link", "wait"} /\ sub[cl[ds]].ds = ds
    /\ link.by # Free => sub[link.by].st \in {"wait", "barewait"}
    /\ fan # Free => pc[fan] \in {"decide", "rmw", "set", "lookup", "reading", "sleep", "refresh", "leave"}
    /\ temp # Free => pc[temp] \in {"decide", "rmw", "set", "refresh", "leave"}
=============================================================================
