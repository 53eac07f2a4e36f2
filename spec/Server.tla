------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The server as seen from outside: remote calls and their answers on one  *)
(* side, requests to the unit and their outcome on the other.              *)
(*                                                                         *)
(* Like Link, each action is one observable step.  It updates what can be  *)
(* known of the server's state and adds to viol the properties that the    *)
(* step breaks.  ServerImpl.tla drives these actions with a model of the   *)
(* code (worker, locks, caches, channels), ServerTrace.tla with what was   *)
(* recorded from the real code.                                            *)
(*                                                                         *)
(* An exchange with the unit is seen as its request (Ask) and, if the      *)
(* server accepted an answer, the acknowledgement that it sends (Accept).  *)
(* A data set's fetch has succeeded when the answer was accepted and can   *)
(* be decoded.                                                             *)
(***************************************************************************)
EXTENDS Api

CONSTANTS
    Settle,     \* after the acknowledgement, a value is in the cache within this time
    Margin,     \* precision of event times
    Idle,       \* nobody leaves the line unused for longer while there is something to do
    Over,       \* an exchange takes no longer
    Fast, Slow, Glacial,   \* periods of the refreshes
    Fresh,      \* a data set is not fetched again within this time
    Readings,   \* attempts to see the new speed
    PollGap, PollMax,      \* time between two of them, least and most while the line is free
    Bound       \* time to answer a call, for every call it may have to wait for

VARIABLES
    now,      \* time of the last event
    st,       \* "new", "starting", "on"
    t0,       \* when start-up was complete
    u,        \* the unit's settings
    healthy,  \* the unit answers every request and nobody else changes its settings
    faulted,  \* a request has failed
    hist,     \* per data set: what may be served
    calls,    \* calls in progress
    x,        \* the exchange in progress
    free,     \* when the line was last seen to become free
    busy,     \* since when it has been in use without a break
    need,     \* data sets that start-up has not asked for yet
    mark,     \* time of the last scheduled refresh
    budget,   \* per data set: fetches that the schedule allows
    used,     \* per data set: fetches made that the schedule or a flush allowed
    duty,     \* per data set: time of a mark that has not been met, -1 if none
    own,      \* per class of changes: the call that made the last exchange
    last,     \* per class: end of that exchange
    promise,  \* per class: what a change that succeeded has put in force
    begun,    \* number of calls so far
    viol      \* properties seen broken
svars == <<now, st, t0, u, healthy, faulted, hist, calls, x, free, busy,
           need, mark, budget, used, duty, own, last, promise, begun, viol>>

-----------------------------------------------------------------------------
(* Data sets: see Api *)

Period(ds) == CASE ds \in {"temps", "fans"} -> Fast
                [] ds \in {"profiles", "bypass"} -> Slow
                [] OTHER -> Glacial

\* hist[ds]: the fetched answers that may still be seen, oldest first.
\*   t: fetched (accepted) at, vis: seen by everybody from then on,
\*   lo..q: bounds of the time that the server takes for the age of the data,
\*   opt: whether the server keeps it is left open, by: call that fetched it
Nothing == [t |-> -1, vis |-> -1, p |-> <<>>, lo |-> -1000000000, q |-> -1000000000, opt |-> FALSE, by |-> 0]

\* Payloads that may be seen at some time in [a, b].
Cands(ds, a, b) ==
    LET h == hist[ds] IN
    {h[i].p : i \in {i \in DOMAIN h : h[i].t <= b /\ \A j \in DOMAIN h : j > i /\ ~h[j].opt => h[j].vis >= a}}
Vals(ds, a, b) == {Value(ds, p) : p \in Cands(ds, a, b)}

\* The last fetch that counts.
LastFetch(ds) ==
    LET h == hist[ds]
        s == {i \in DOMAIN h : ~h[i].opt}
    IN h[CHOOSE i \in s : \A j \in s : j <= i]

-----------------------------------------------------------------------------
(* Calls *)

NewCall(op, a, t) ==
    [op |-> op, a |-> a, t |-> t,
     ph |-> "new",       \* how far a change has got
     cmd |-> FALSE,      \* the command has been sent to the unit (and it may have got it)
     ack |-> FALSE,      \* and acknowledged
     ackT |-> 0,
     bad |-> FALSE,      \* one of its exchanges failed
     left |-> FALSE,     \* who made the call does not wait for the answer any more
     ghost |-> FALSE,    \* it has been given up for that reason
     closed |-> FALSE,   \* another change of its class has begun its exchanges since
     origs |-> {},       \* original values the decision may have been based on
     tgt |-> 0,
     rd |-> 0, rdT |-> 0, rdEnd |-> 0,    \* readings, time of the last one and of its end
     hit |-> FALSE,      \* one of its readings showed the target
     look |-> 0,         \* it has looked at that reading by then, unless another fetch took its place before
     maybe |-> FALSE,    \* some reading of the unit showed what may be the target
     rmw |-> <<>>,       \* profiles read for a profile change
     refr |-> 0,         \* refreshes after the command
     tried |-> {}, good |-> {}, fail |-> {},   \* data sets fetched since the call: tried, how it went
     prom |-> promise, crowd |-> Cardinality(DOMAIN calls), begun |-> begun]

Drop(f, k) == [i \in DOMAIN f \ {k} |-> f[i]]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
Need(labels, cond) == IF cond THEN {} ELSE labels
Later(a, b) == IF a > b THEN a ELSE b

NoX == [on |-> FALSE, by |-> 0, cmd |-> 0, ds |-> "none", t |-> 0, lo |-> 0, k |-> "", p |-> <<>>, role |-> ""]
Classes == {"fan", "temp"}
NoPromise == [on |-> FALSE, op |-> "", m |-> 0, v |-> 0]

Anew(settings, well) ==
    [now |-> 0, st |-> "new", t0 |-> 0, u |-> settings, healthy |-> well, faulted |-> FALSE,
     hist |-> [ds \in Sets |-> <<Nothing>>], calls |-> [i \in {} |-> 0], x |-> NoX, free |-> 0, busy |-> 0,
     need |-> Sets, mark |-> 0, budget |-> [ds \in Sets |-> 0], used |-> [ds \in Sets |-> 0], duty |-> [ds \in Sets |-> -1],
     own |-> [c \in Classes |-> 0], last |-> [c \in Classes |-> 0],
     promise |-> [c \in Classes |-> NoPromise], begun |-> 0, viol |-> {}]

ServerInit(settings, well) ==
    LET a == Anew(settings, well) IN
    /\ now = a.now /\ st = a.st /\ t0 = a.t0 /\ u = a.u /\ healthy = a.healthy /\ faulted = a.faulted
    /\ hist = a.hist /\ calls = a.calls /\ x = a.x /\ free = a.free /\ busy = a.busy /\ need = a.need
    /\ mark = a.mark /\ budget = a.budget /\ used = a.used /\ duty = a.duty /\ own = a.own /\ last = a.last
    /\ promise = a.promise /\ begun = a.begun /\ viol = a.viol

\* A new server with a unit that has the given settings.
Begin(settings, well) ==
    LET a == Anew(settings, well) IN
    /\ now' = a.now /\ st' = a.st /\ t0' = a.t0 /\ u' = a.u /\ healthy' = a.healthy /\ faulted' = a.faulted
    /\ hist' = a.hist /\ calls' = a.calls /\ x' = a.x /\ free' = a.free /\ busy' = a.busy /\ need' = a.need
    /\ mark' = a.mark /\ budget' = a.budget /\ used' = a.used /\ duty' = a.duty /\ own' = a.own /\ last' = a.last
    /\ promise' = a.promise /\ begun' = a.begun /\ viol' = a.viol

-----------------------------------------------------------------------------
(* Time and the schedule *)

\* When the line became free, as of time t; t itself while it is in use.
FreeAt(t) == IF ~x.on THEN free ELSE IF t > x.t + Over THEN x.t + Over ELSE t

\* The data set was fetched so recently at time m that a refresh may be skipped.
Recent(ds, m) == LastFetch(ds).q >= m - Fresh - Margin

\* What is to be said at time t of what happened before: refreshes missed,
\* fetches that the schedule allowed and that were not needed.
Lost(t) == {ds \in Sets : /\ duty[ds] >= 0 /\ ~Recent(ds, duty[ds])
                          /\ t > Later(FreeAt(t), duty[ds]) + Idle}
LostLabels(t) == IF Lost(t) = {} THEN {} ELSE {"C15"} \cup (IF faulted THEN {"C21"} ELSE {})
Duty(t) == [ds \in Sets |-> IF ds \in Lost(t) THEN -1 ELSE duty[ds]]
Over0(t) == t > Later(FreeAt(t), mark) + Idle
Less(a, b) == IF a > b THEN a - b ELSE 0
Budget(t) == IF Over0(t) THEN [ds \in Sets |-> 0] ELSE budget
\* A fetch that the schedule or a flush allowed is charged to the schedule first.
Used(t) == IF Over0(t) THEN [ds \in Sets |-> Less(used[ds], budget[ds])] ELSE used

\* The n-th mark of the fastest refresh is about to come.
Mark(n, t) ==
    LET due == {ds \in Sets : n % (Period(ds) \div Fast) = 0}
        d == Duty(t)
        b == Budget(t)
        n0 == Used(t)
        m == t0 + n * Fast
    IN
    /\ st = "on"
    /\ now' = t
    /\ mark' = m
    /\ duty' = [ds \in Sets |-> IF ds \in due /\ (d[ds] < 0 \/ Recent(ds, d[ds])) THEN m ELSE d[ds]]
    /\ budget' = [ds \in Sets |-> IF ds \in due /\ b[ds] < n0[ds] + 2 THEN b[ds] + 1 ELSE b[ds]]
    /\ used' = n0
    /\ viol' = viol \cup LostLabels(t)
    /\ UNCHANGED <<st, t0, u, healthy, faulted, hist, calls, x, free, busy, need, own, last, promise, begun>>

-----------------------------------------------------------------------------
(* Start-up *)
Start(t) ==
    /\ now' = t /\ st' = "starting" /\ viol' = viol
    /\ UNCHANGED <<t0, u, healthy, faulted, hist, calls, x, free, busy, need, mark, budget, used, duty, own, last, promise, begun>>

Started(t) ==
    /\ now' = t /\ st' = "on" /\ t0' = t /\ mark' = t
    /\ viol' = viol \cup Need({"C14"}, need = {})
    /\ free' = FreeAt(t) /\ x' = NoX
    /\ UNCHANGED <<u, healthy, faulted, hist, calls, busy, need, budget, used, duty, own, last, promise, begun>>

-----------------------------------------------------------------------------
(* Calls *)
Call(id, op, a, t) ==
    LET cl == Class(op) IN
    /\ id \notin DOMAIN calls
    /\ now' = t
    /\ calls' = Put(calls, id, NewCall(op, a, t))
    /\ begun' = begun + 1
    /\ promise' = IF cl = "none" THEN promise ELSE [promise EXCEPT ![cl] = NoPromise]
    /\ viol' = viol \cup LostLabels(t)
    /\ duty' = Duty(t) /\ budget' = Budget(t) /\ used' = Used(t)
    /\ UNCHANGED <<st, t0, u, healthy, faulted, hist, x, free, busy, need, mark, own, last>>

-----------------------------------------------------------------------------
(* What the next request of change c, number id, must be, and what it does *)
(* to c.  A step is a record: labels, the call after it, and the role the  *)
(* answer plays.                                                           *)

\* The beginning of the time at which call id, having the lock of its class, decides.
DecideFrom(id) ==
    LET cl == Class(calls[id].op) IN Later(calls[id].t, last[cl])

\* What the decision may have been based on: fetches by the change before are known to it.
Known(ds, id, t) ==
    LET cl == Class(calls[id].op)
        a == DecideFrom(id)
        h == hist[ds]
        vis(j) == IF h[j].by # 0 /\ h[j].by = own[cl] THEN -1 ELSE h[j].vis
        s == {i \in DOMAIN h : h[i].t <= t /\ \A j \in DOMAIN h : j > i /\ ~h[j].opt => vis(j) >= a}
    IN {Value(ds, h[i].p) : i \in s}

Does(labels, c, role) == [labels |-> labels, c |-> c, role |-> role]

SpeedStep(id, c, cmd, d, t) ==
    CASE c.ph = "new" ->
           LET vs == Known("profiles", id, t)
               all == {v.CurrentMode : v \in vs}
               go == {o \in all : SpeedTarget(c.a, o) \notin {0, o}}
               fit == {o \in go : d = <<SpeedTarget(c.a, o)>>}
               wrong == IF \A o \in all : SpeedTarget(c.a, o) = 0 THEN {"C13", "C17"}
                        ELSE IF go = {} THEN {"C13", "C18", "C19"}
                        ELSE IF cmd # SetSpeedCmd THEN {"C13", "C18"}
                        ELSE {"C18", "C19"}
           IN Does(Need(wrong, cmd = SetSpeedCmd /\ fit # {}),
                   [c EXCEPT !.ph = "poll", !.cmd = TRUE, !.origs = fit, !.tgt = IF d = <<>> THEN 0 ELSE d[1]], "cmd")
      [] c.ph = "poll" /\ cmd = CmdOf("fans") ->
           Does(Need({"C18"}, c.ack) \cup Need({"C13", "C18"}, c.rd < Readings /\ ~c.hit)
                \cup Need({"C18"}, c.rd = 0 \/ t >= c.rdT + PollGap)
                \cup Need({"C18"}, t <= Later(Later(c.rdEnd, c.ackT), FreeAt(t)) + PollMax),
                [c EXCEPT !.rd = @ + 1, !.rdT = t], "reading")
      [] c.ph = "poll" /\ cmd = CmdOf("profiles") ->
           Does(Need({"C13", "C18"}, ~c.ack \/ c.maybe \/ c.rd = Readings),
                [c EXCEPT !.ph = "done", !.refr = 1], "refresh")
      [] OTHER -> Does({"C13", "C18"}, c, "other")

ProfileStep(id, c, cmd, d, t) ==
    LET m == c.a[1]
        pct == c.a[2]
    IN
    CASE c.ph = "new" ->
           LET vs == Known("profiles", id, t)
               go == {v \in vs : Duties(v, m) # <<pct, pct>>}
           IN IF ~ProfileArgsOk(c.a) THEN Does({"C13", "C17"}, c, "other")
              ELSE Does(Need(IF go = {} THEN {"C13", "C19"} ELSE {"C13", "C20"}, go # {} /\ cmd = CmdOf("profiles")),
                        [c EXCEPT !.ph = "read", !.origs = {Duties(v, m)[1] : v \in go}], "rmw")
      [] c.ph = "read" /\ cmd = SetProfilesCmd ->
           Does(Need({"C19", "C20"}, c.rmw # <<>> /\
                        d = ProfilesPayload(WithProfile(Decode("GetFanProfiles", c.rmw), m - 1, pct))),
                [c EXCEPT !.ph = "poll", !.cmd = TRUE], "cmd")
      [] c.ph \in {"read", "poll"} /\ cmd = CmdOf("profiles") ->
           Does(Need({"C13"}, c.ph = "poll" \/ c.bad), [c EXCEPT !.ph = "done", !.refr = 1], "refresh")
      [] OTHER -> Does({"C13"}, c, "other")

ComfortStep(id, c, cmd, d, t) ==
    CASE c.ph = "new" ->
           LET vs == Known("temps", id, t)
               go == {v \in vs : v.Comfort # c.a[1]}
           IN IF ~ComfortOk(c.a[1]) THEN Does({"C13", "C17"}, c, "other")
              ELSE Does(Need({"C13", "C19"}, go # {})
                        \cup Need({"C13", "C20"}, cmd = SetComfortCmd /\ d = <<ComfortByte(c.a[1])>>),
                        [c EXCEPT !.ph = "poll", !.cmd = TRUE, !.origs = {v.Comfort : v \in go}], "cmd")
      [] c.ph = "poll" /\ cmd = CmdOf("temps") -> Does({}, [c EXCEPT !.ph = "done", !.refr = 1], "refresh")
      [] OTHER -> Does({"C13"}, c, "other")

ChangeStep(id, cmd, d, t) ==
    LET c == calls[id] IN
    CASE c.op = "SetFanSpeed" -> SpeedStep(id, c, cmd, d, t)
      [] c.op = "SetFanProfile" -> ProfileStep(id, c, cmd, d, t)
      [] OTHER -> ComfortStep(id, c, cmd, d, t)

\* Changes in progress of which the request may be a part.
MightBe(cmd, d, t) ==
    {id \in DOMAIN calls : IsChange(calls[id].op) /\ ChangeStep(id, cmd, d, t).labels = {}}

\* Flushes in progress that name the data set.
Flushing(ds) == {id \in DOMAIN calls : calls[id].op = "FlushCache" /\ ds \in Named(calls[id].a[1])}
Least(s) == CHOOSE i \in s : \A j \in s : i <= j

\* How answers can turn out: the answer is accepted, and can be decoded.
Fails(k) == k # "ok"

-----------------------------------------------------------------------------
(* The unit is sent a request, by call c if that is known (0 if not); d is *)
(* its payload.  k is how the unit answers ("ok": properly, with payload   *)
(* p, after less than a second), s its settings from now on.               *)
Ask(by, cmd, d, k, p, s, t) ==
    LET ds == SetOf(cmd)
        isSet == ds = "none"
        gap == t - FreeAt(t)
        b == IF gap > Margin THEN t - Margin ELSE busy
        bud == Budget(t)
        dut == Duty(t)
        named == by \in DOMAIN calls
        use == Used(t)
        flushers == Flushing(ds)
        allowed == ~isSet /\ use[ds] < bud[ds] + Cardinality(flushers)
        might == MightBe(cmd, d, t)
        \* on whose behalf
        who == IF named THEN by
               ELSE IF st = "starting" THEN 0
               ELSE IF allowed THEN (IF flushers = {} \/ use[ds] < bud[ds] THEN 0 ELSE Least(flushers))
               ELSE IF might # {} THEN Least(might)
               ELSE 0
        op == IF who = 0 THEN "" ELSE calls[who].op
        shared == ~named /\ st = "on" /\ allowed
        step == IF IsChange(op) THEN ChangeStep(who, cmd, d, t) ELSE Does({}, 0, "fetch")
        cl == Class(op)
        prev == IF cl = "none" THEN 0 ELSE own[cl]
        anyFlush == \E id \in DOMAIN calls : calls[id].op = "FlushCache"
        labels ==
            IF st # "on" THEN Need({"C13", "C14"}, ds \in need)
            ELSE IF shared THEN Need({"C13", "C15"}, flushers # {} \/ t - LastFetch(ds).lo >= Fresh - 4 * Margin)
            ELSE IF IsChange(op) THEN step.labels \cup Need({"C19"}, ~calls[who].closed)
            ELSE IF IsRead(op) THEN {"C13"}
            ELSE {"C13"} \cup (IF anyFlush THEN {"C16"} ELSE {})
                         \cup (IF ~isSet THEN {"C15"} ELSE {})
        base == [id \in DOMAIN calls |->
                   LET c == IF id = who /\ IsChange(op) THEN step.c ELSE calls[id]
                       c1 == IF isSet THEN c
                             ELSE [c EXCEPT !.tried = @ \cup {ds},
                                            !.fail = IF Fails(k) THEN @ \cup {ds} ELSE @]
                       c2 == IF id = who THEN [c1 EXCEPT !.bad = @ \/ Fails(k),
                                                        !.rdEnd = IF step.role = "reading" THEN t + Over ELSE @]
                             ELSE c1
                       c3 == IF cl # "none" /\ id = prev /\ prev # who THEN [c2 EXCEPT !.closed = TRUE] ELSE c2
                   IN c3]
    IN
    /\ now' = t
    /\ u' = s
    /\ faulted' = (faulted \/ Fails(k))
    /\ busy' = b
    /\ need' = need \ {ds}
    /\ calls' = base
    /\ own' = IF cl = "none" THEN own ELSE [own EXCEPT ![cl] = who]
    /\ last' = IF cl = "none" THEN last ELSE [last EXCEPT ![cl] = t]
    /\ budget' = bud
    /\ used' = IF shared THEN [use EXCEPT ![ds] = @ + 1] ELSE use
    /\ duty' = IF shared THEN [dut EXCEPT ![ds] = -1] ELSE dut
    /\ x' = IF k = "werr" THEN NoX
             ELSE [on |-> TRUE, by |-> who, cmd |-> cmd, ds |-> ds, t |-> t, lo |-> b, k |-> k, p |-> p,
                   role |-> step.role]
    /\ free' = IF k = "werr" THEN t ELSE free
    /\ viol' = viol \cup labels \cup LostLabels(t)
    /\ UNCHANGED <<st, t0, healthy, hist, mark, promise, begun>>

-----------------------------------------------------------------------------
(* The server has accepted the answer to the request. *)

\* Drops what nobody can see any more.
Prune(h, t) ==
    LET since == IF DOMAIN calls = {} THEN t
                 ELSE LET m == CHOOSE m \in {calls[i].t : i \in DOMAIN calls} :
                                 \A j \in DOMAIN calls : m <= calls[j].t IN m
        keep == {i \in DOMAIN h : \A j \in DOMAIN h : j > i /\ ~h[j].opt => h[j].vis >= since - Over}
    IN SubSeq(h, CHOOSE i \in keep : \A j \in keep : i <= j, Len(h))

Accept(t) ==
    LET good == x.on /\ ~Fails(x.k)
        fetched == good /\ x.ds # "none" /\ Decodable(FetchOp[x.ds], x.p)
        e == [t |-> t, vis |-> t + Settle, p |-> x.p, lo |-> x.lo, q |-> x.t, opt |-> x.role = "rmw", by |-> x.by]
        h == IF fetched THEN [hist EXCEPT ![x.ds] = Append(Prune(@, t), e)] ELSE hist
        cl == IF x.on /\ x.by \in DOMAIN calls THEN Class(calls[x.by].op) ELSE "none"
        \* duties that count as the target's for call c
        aims(c) == {Duties(v, c.tgt) : v \in Vals("profiles", c.t, t)}
        shown == LET v == Decode("GetFans", x.p) IN <<v.InPercent, v.OutPercent>>
        upd(id) ==
            LET c == calls[id]
                mine == id = x.by
                c1 == IF fetched /\ x.t >= c.t /\ x.role # "rmw" THEN [c EXCEPT !.good = @ \cup {x.ds}] ELSE c
                c2 == IF ~mine THEN c1
                      ELSE IF x.role = "cmd" THEN [c1 EXCEPT !.ack = good, !.ackT = t]
                      ELSE IF x.role = "rmw" /\ fetched THEN [c1 EXCEPT !.rmw = x.p]
                      ELSE IF x.role = "reading" THEN [c1 EXCEPT !.rdEnd = t]
                      ELSE c1
                seen == fetched /\ x.ds = "fans" /\ c.op = "SetFanSpeed" /\ c.ph = "poll" /\ c.ack
                        /\ x.t >= c.ackT /\ c.tgt \in 1..4
                c3 == IF ~seen THEN c2
                      ELSE [c2 EXCEPT !.maybe = @ \/ shown \in aims(c),
                                      !.look = IF mine \/ x.t <= @ THEN t + Settle ELSE @,
                                      !.hit = IF mine THEN @ \/ aims(c) = {shown}
                                              ELSE @ /\ (aims(c) = {shown} \/ x.t > c.look)]
            IN c3
    IN
    /\ now' = t
    /\ hist' = h
    /\ calls' = [id \in DOMAIN calls |-> IF x.on THEN upd(id) ELSE calls[id]]
    /\ last' = IF cl = "none" THEN last ELSE [last EXCEPT ![cl] = t]
    /\ free' = IF x.on THEN t ELSE free
    /\ x' = NoX
    /\ viol' = viol \cup LostLabels(t)
    /\ duty' = Duty(t) /\ budget' = Budget(t) /\ used' = Used(t)
    /\ UNCHANGED <<st, t0, u, healthy, faulted, busy, need, mark, own, promise, begun>>

-----------------------------------------------------------------------------
(* A call is answered: ok with v, or an error with a code. *)

Err == "invalid_argument"

SpeedRet(c, ok, code, v, t) ==
    LET all == {p.CurrentMode : p \in Vals("profiles", c.t, t)}
        refuse == {o \in all : SpeedTarget(c.a, o) = 0}
        same == {o \in all : SpeedTarget(c.a, o) = o}
    IN
    IF c.ph = "new" THEN
        (IF ok THEN (IF all \subseteq refuse THEN {"C17"}
                     ELSE Need({"C18", "C19", "C20"}, \E o \in same \ refuse :
                                v = [Modified |-> FALSE, OriginalSpeed |-> o, TargetSpeed |-> o]))
         ELSE IF refuse = {} THEN {"C18", "C21"} \cup (IF code = Err THEN {"C17"} ELSE {})
         ELSE Need({"C17"}, code = Err))
    ELSE IF ok THEN
        Need({"C18"}, c.ack /\ c.maybe)
        \cup Need({"C19"}, v.Modified /\ v.OriginalSpeed \in c.origs /\ v.TargetSpeed = c.tgt)
    ELSE
        Need({"C18"}, ~c.ack \/ c.rd = Readings \/ (c.bad /\ c.refr > 0))
        \cup Need({"C18", "C21"}, ~c.hit \/ c.bad)
        \cup Need({"C18", "C20"}, "profiles" \in c.tried)
        \cup Need({"C17"}, code # Err)

ProfileRet(c, ok, code, v, t) ==
    LET vs == Vals("profiles", c.t, t)
        m == c.a[1]
        pct == c.a[2]
    IN
    IF ~ProfileArgsOk(c.a) THEN Need({"C17"}, ~ok /\ code = Err)
    ELSE IF c.ph = "new" THEN
        (IF ok THEN Need({"C19", "C20"}, /\ \E p \in vs : Duties(p, m) = <<pct, pct>>
                                         /\ v = [Modified |-> FALSE, OriginalSpeed |-> pct, TargetSpeed |-> pct])
         ELSE {"C17", "C21"})
    ELSE IF ok THEN
        Need({"C19", "C20"}, c.cmd /\ c.ack)
        \cup Need({"C19"}, v.Modified /\ v.OriginalSpeed \in c.origs /\ v.TargetSpeed = pct)
    ELSE Need({"C21"}, c.bad) \cup Need({"C17"}, code # Err)

ComfortRet(c, ok, code, v, t) ==
    LET vs == Vals("temps", c.t, t)
        deg == c.a[1]
    IN
    IF ~ComfortOk(deg) THEN Need({"C17"}, ~ok /\ (deg > 255 => code = Err))
    ELSE IF c.ph = "new" THEN
        (IF ok THEN Need({"C19", "C20"}, /\ \E p \in vs : p.Comfort = deg
                                         /\ v = [Modified |-> FALSE, OriginalTemp |-> deg, TargetTemp |-> deg])
         ELSE {"C17", "C21"})
    ELSE IF ok THEN
        Need({"C19", "C20"}, c.cmd /\ c.ack)
        \cup Need({"C19"}, v.Modified /\ (v.OriginalTemp \in c.origs \/ \E o \in c.origs : o < 0) /\ v.TargetTemp = deg)
    ELSE Need({"C21"}, c.bad) \cup Need({"C17"}, code # Err)

\* The unit's setting is what the change asked for.
InForce(c, v, s) ==
    CASE c.op = "SetFanSpeed" -> SpeedIn(s) = v.TargetSpeed
      [] c.op = "SetFanProfile" -> DutiesIn(s, c.a[1]) = <<c.a[2], c.a[2]>>
      [] OTHER -> ComfortIn(s) = c.a[1]

Promised(c, v) ==
    [on |-> TRUE, op |-> c.op, m |-> IF c.op = "SetFanProfile" THEN c.a[1] ELSE 0,
     v |-> IF c.op = "SetFanSpeed" THEN v.TargetSpeed ELSE IF c.op = "SetFanProfile" THEN c.a[2] ELSE c.a[1]]

\* What a read shows agrees with a promise.
Kept(p, ds, v) ==
    CASE ~p.on -> TRUE
      [] p.op = "SetFanSpeed" /\ ds = "profiles" -> v.CurrentMode = p.v
      [] p.op = "SetFanProfile" /\ ds = "profiles" -> Duties(v, p.m) = <<p.v, p.v>>
      [] p.op = "SetComfortTemp" /\ ds = "temps" -> v.Comfort = p.v
      [] OTHER -> TRUE

ReadRet(c, ok, v, t) ==
    LET ds == ReadOf[c.op] IN
    IF ~ok THEN {"C12"}
    ELSE IF v \notin Vals(ds, c.t, t) THEN {"C12"}
    ELSE Need({"C20"}, \A cl \in Classes : c.prom[cl] = promise[cl] => Kept(promise[cl], ds, v))

FlushRet(c, ok, v) ==
    LET n == Named(c.a[1]) IN
    IF ~ok THEN {"C16"}
    ELSE Need({"C16"}, /\ n \subseteq c.tried
                       /\ v.Success => n # {} /\ n \subseteq c.good
                       /\ ~v.Success => n = {} \/ n \cap c.fail # {})

Ret(id, ok, panic, code, v, t) ==
    LET c == calls[id]
        cl == Class(c.op)
        quits == c.left /\ ~ok /\ ~panic
        labels ==
            IF quits THEN Need({"C18", "C20"}, c.op = "SetFanSpeed" /\ c.cmd => "profiles" \in c.tried)
            ELSE IF panic THEN {"C21"} \cup (IF IsRead(c.op) THEN {"C12"} ELSE IF IsChange(c.op) THEN {"C17"} ELSE {"C16"})
            ELSE CASE IsRead(c.op) -> ReadRet(c, ok, v, t)
                   [] c.op = "FlushCache" -> FlushRet(c, ok, v)
                   [] c.op = "SetFanSpeed" -> SpeedRet(c, ok, code, v, t)
                   [] c.op = "SetFanProfile" -> ProfileRet(c, ok, code, v, t)
                   [] OTHER -> ComfortRet(c, ok, code, v, t)
        done == ok /\ ~panic /\ cl # "none"
        clean == \A i \in DOMAIN calls : i # id => Class(calls[i].op) # cl
        crowd == 1 + c.crowd + begun - c.begun
    IN
    /\ id \in DOMAIN calls /\ ~c.ghost
    /\ now' = t
    /\ viol' = viol \cup labels \cup LostLabels(t)
                    \cup Need({"C20"}, done /\ healthy /\ clean => InForce(c, v, u))
                    \cup Need({"C21"}, t <= c.t + Bound * crowd)
    \* what a call has begun that nobody waits for may go on
    /\ calls' = IF quits /\ ~IsRead(c.op) THEN [calls EXCEPT ![id].ghost = TRUE] ELSE Drop(calls, id)
    \* what the call has fetched is there for everybody now
    /\ hist' = [ds \in Sets |-> [i \in DOMAIN hist[ds] |->
                  IF hist[ds][i].by = id /\ hist[ds][i].vis > t THEN [hist[ds][i] EXCEPT !.vis = t] ELSE hist[ds][i]]]
    /\ promise' = IF done /\ healthy /\ clean THEN [promise EXCEPT ![cl] = Promised(c, v)] ELSE promise
    /\ duty' = Duty(t) /\ budget' = Budget(t)
    /\ used' = [ds \in Sets |-> IF c.op = "FlushCache" /\ ~quits /\ ds \in Named(c.a[1]) THEN Less(Used(t)[ds], 1) ELSE Used(t)[ds]]
    /\ UNCHANGED <<st, t0, u, healthy, faulted, x, free, busy, need, mark, own, last, begun>>

(* Who made the call goes away: an error will do for an answer, and what   *)
(* has been begun may be given up or not.                                  *)
Leave(id, t) ==
    LET cl == IF id \in DOMAIN calls THEN Class(calls[id].op) ELSE "none" IN
    /\ now' = t
    /\ calls' = IF id \in DOMAIN calls THEN [calls EXCEPT ![id].left = TRUE] ELSE calls
    /\ promise' = IF cl = "none" THEN promise ELSE [promise EXCEPT ![cl] = NoPromise]
    /\ viol' = viol \cup LostLabels(t)
    /\ duty' = Duty(t) /\ budget' = Budget(t) /\ used' = Used(t)
    /\ UNCHANGED <<st, t0, u, healthy, faulted, hist, x, free, busy, need, mark, own, last, begun>>

-----------------------------------------------------------------------------
(* Somebody else changes the unit's settings. *)
External(s, t) ==
    /\ now' = t /\ u' = s /\ healthy' = FALSE
    /\ viol' = viol \cup LostLabels(t)
    /\ duty' = Duty(t) /\ budget' = Budget(t) /\ used' = Used(t)
    /\ UNCHANGED <<st, t0, faulted, hist, calls, x, free, busy, need, mark, own, last, promise, begun>>

\* The unit receives something that is no request.
Junk(t) ==
    /\ now' = t /\ viol' = viol \cup {"C13"}
    /\ UNCHANGED <<st, t0, u, healthy, faulted, hist, calls, x, free, busy, need, mark, budget, used, duty, own, last, promise, begun>>

\* Time passes.
Quiet(t) ==
    /\ now' = t
    /\ viol' = viol \cup LostLabels(t)
    /\ duty' = Duty(t) /\ budget' = Budget(t) /\ used' = Used(t)
    /\ UNCHANGED <<st, t0, u, healthy, faulted, hist, calls, x, free, busy, need, mark, own, last, promise, begun>>

\* The end: every call has been answered.
End(t) ==
    /\ now' = t
    /\ viol' = viol \cup LostLabels(t) \cup Need({"C21"}, \A i \in DOMAIN calls : calls[i].ghost) \cup Need({"C14"}, st = "on")
    /\ duty' = Duty(t) /\ budget' = Budget(t) /\ used' = Used(t)
    /\ UNCHANGED <<st, t0, u, healthy, faulted, hist, calls, x, free, busy, need, mark, own, last, promise, begun>>

\* A call is never answered, or the program ended.
Hang(t) ==
    /\ now' = t
    /\ viol' = viol \cup {"C21"} \cup (IF st # "on" THEN {"C14"} ELSE {})
                    \cup (IF \E i \in DOMAIN calls : calls[i].op = "FlushCache" THEN {"C16"} ELSE {})
    /\ UNCHANGED <<st, t0, u, healthy, faulted, hist, calls, x, free, busy, need, mark, budget, used, duty, own, last, promise, begun>>

\* The program ended of itself: nothing goes on.
Crash(t) ==
    /\ now' = t
    /\ viol' = viol \cup {"C21", "C15"} \cup (IF st # "on" THEN {"C14"} ELSE {})
                    \cup UNION {IF IsRead(calls[i].op) THEN {"C12"} ELSE IF calls[i].op = "FlushCache" THEN {"C16"} ELSE {} : i \in DOMAIN calls}
    /\ UNCHANGED <<st, t0, u, healthy, faulted, hist, calls, x, free, busy, need, mark, budget, used, duty, own, last, promise, begun>>

\* Two accesses to shared data without synchronisation.
Race(t) ==
    /\ now' = t /\ viol' = viol \cup {"C22"}
    /\ UNCHANGED <<st, t0, u, healthy, faulted, hist, calls, x, free, busy, need, mark, budget, used, duty, own, last, promise, begun>>

NoViolation == viol = {}
=============================================================================
