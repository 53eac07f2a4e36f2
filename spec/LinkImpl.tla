------------------------------ MODULE LinkImpl ------------------------------
(***************************************************************************)
(* The library (libcomfo/conn.go, api.go) as concurrent callers that share *)
(* a connection, and a unit that may answer anything at any time.          *)
(*                                                                         *)
(* Every observable step of the code is one step here, taken together with *)
(* the action of Link that judges it, so that viol = {} says that the      *)
(* design keeps the library's properties.  The modelled steps:             *)
(*   Begin      a caller calls a library function                          *)
(*   LockAPI    am.Lock in SetFanProfile(s)                                *)
(*   Ask        pm.Lock, newQueryReader (drops input that came in between),*)
(*              WritePacket; the timer starts                              *)
(*   UnitTakes  the unit has the request and settles how it will answer    *)
(*   UnitSays   the unit sends the next piece of an answer                 *)
(*   ConnRead   the outstanding Read of the connection returns             *)
(*   Consume    the query in progress takes what was read; on a verdict it *)
(*              acknowledges (and is done), or starts to discard, or, when *)
(*              more is needed, starts another Read                        *)
(*   Expire     the timer fires                                            *)
(*   Return     the function returns to its caller                         *)
(*   Tick       time passes (only when nothing else is left to do now)     *)
(***************************************************************************)
EXTENDS Link, Scan

CONSTANTS Callers,        \* a set of numbers 1..9
          Prog(_),        \* what each caller calls: a sequence of [op, a]
          Answers(_, _),  \* how the unit may answer a request (cmd, expect): sequences of [d, b, err]
          WriteFaults,    \* how many writes may fail
          MaxFaulty,      \* how many requests may get other than the first kind of answer
          Unit0,          \* the unit's profiles: the payload of its answer
          Flaw            \* a deliberate error in the design, "none" for none.  TLC must
                          \* refute each, which shows what the model can tell apart:
                          \*   noAPI    SetFanProfile does not lock out other changes
                          \*   keep     input that came between two queries is kept
                          \*   swallow  a timed-out query's Read takes input with it
                          \*   nodrain  the rest of a rejected answer is left in place
                          \*   noack    a good answer is not acknowledged
                          \*   hasty    time is up too early
                          \*   patient  time is up too late
                          \*   eofok    the end of the stream passes for an answer

VARIABLES pc,      \* caller -> [at, k, step, ok, v]
          am, pm,  \* who holds the locks (0: nobody)
          pend,    \* the outstanding Read: [st: none/waiting/done, b, err]
          inbox,   \* what has arrived at the connection: sequence of [b, err]
          atEof,   \* the stream has ended
          scan,    \* what the query in progress has read
          cut,     \* it has seen the end of its input
          due,     \* when its timer fires
          sched,   \* what the unit will send: request number -> sequence of [at, b, err]
          taking,  \* a request has just been written
          wleft,   \* write faults left
          faulty,  \* requests answered badly so far
          unit,    \* the unit's fan profiles
          eff,     \* profile changes the unit carried out: a sequence of [id, a]
          ended,
          hist     \* what was chosen, for the scenarios replayed against the code
ivars == <<pc, am, pm, pend, inbox, atEof, scan, cut, due, sched, taking, wleft, faulty, unit, eff, ended, hist>>
vars == <<lvars, ivars>>

NoRead == [st |-> "none", b |-> <<>>, err |-> FALSE]
Id(c, k) == c * 10 + k
Op(c) == Prog(c)[pc[c].k]
Cid(c) == Id(c, pc[c].k)

Init ==
    /\ LinkInit
    /\ pc = [c \in Callers |-> [at |-> "idle", k |-> 1, step |-> 1, ok |-> TRUE, v |-> <<>>]]
    /\ am = 0 /\ pm = 0
    /\ pend = NoRead /\ inbox = <<>> /\ atEof = FALSE /\ scan = <<>> /\ cut = FALSE
    /\ due = 0 /\ sched = <<>> /\ taking = FALSE
    /\ wleft = WriteFaults /\ faulty = 0 /\ unit = Unit0 /\ eff = <<>> /\ ended = FALSE /\ hist = <<>>

Set(c, at) == pc' = [pc EXCEPT ![c].at = at]
Profiles(op) == op \in {"SetFanProfile", "SetFanProfiles"}

-----------------------------------------------------------------------------
(* Callers *)

Begin(c) ==
    /\ pc[c].at = "idle" /\ pc[c].k <= Len(Prog(c))
    /\ Call(Cid(c), Op(c).op, Op(c).a, now)
    /\ pc' = [pc EXCEPT ![c] = [@ EXCEPT !.at = IF Profiles(Op(c).op) THEN "am" ELSE "pm", !.step = 1, !.v = <<>>]]
    /\ hist' = Append(hist, [h |-> "call", c |-> c, t |-> now, op |-> Op(c).op, a |-> Op(c).a])
    /\ UNCHANGED <<am, pm, pend, inbox, atEof, scan, cut, due, sched, taking, wleft, faulty, unit, eff, ended>>

LockAPI(c) ==
    /\ pc[c].at = "am" /\ (am = 0 \/ Flaw = "noAPI")
    /\ am' = c
    /\ Set(c, "pm")
    /\ UNCHANGED <<lvars, pm, pend, inbox, atEof, scan, cut, due, sched, taking, wleft, faulty, unit, eff, ended, hist>>

\* The request the code sends.
CodeRequest(c) ==
    LET o == Op(c) IN
    CASE o.op = "Query" -> [cmd |-> o.a[1], data |-> SubSeq(o.a, 3, Len(o.a)), expect |-> o.a[2] = 1]
      [] o.op = "SetSpeed" -> [cmd |-> SetSpeedCmd, data |-> <<o.a[1]>>, expect |-> FALSE]
      [] o.op = "SetFanProfile" ->
            IF pc[c].step = 1 THEN [cmd |-> GetCmd["GetFanProfiles"], data |-> <<>>, expect |-> TRUE]
            ELSE [cmd |-> SetProfilesCmd, expect |-> FALSE,
                  data |-> ProfilesPayload(WithProfile(Decode("GetFanProfiles", pc[c].v), o.a[1], o.a[2]))]
      [] o.op = "SetFanProfiles" -> [cmd |-> SetProfilesCmd, data |-> ProfilesPayload(ArgProfiles(o.a)), expect |-> FALSE]
      [] IsGet(o.op) -> [cmd |-> GetCmd[o.op], data |-> <<>>, expect |-> TRUE]

Ask(c) ==
    /\ pc[c].at = "pm" /\ pm = 0 /\ ~taking
    /\ LET r == CodeRequest(c)
           f == Frame(r.cmd, r.data) IN
       /\ pend' = IF pend.st = "done" /\ Flaw # "keep" THEN NoRead ELSE pend
       /\ scan' = <<>> /\ cut' = FALSE
       /\ \/ /\ HostWrite(Cid(c), f, FALSE, now)
             /\ pm' = c
             /\ taking' = TRUE
             /\ due' = now + (IF Flaw = "hasty" THEN Early ELSE IF Flaw = "patient" THEN Timeout + 1 ELSE Timeout)
             /\ Set(c, "open")
             /\ wleft' = wleft
             /\ hist' = hist
          \/ /\ wleft > 0
             /\ HostWrite(Cid(c), <<>>, TRUE, now)
             /\ wleft' = wleft - 1
             /\ pc' = [pc EXCEPT ![c] = [@ EXCEPT !.at = "ret", !.ok = FALSE]]
             /\ hist' = Append(hist, [h |-> "wfail", c |-> c, t |-> now])
             /\ UNCHANGED <<pm, taking, due>>
    /\ UNCHANGED <<am, inbox, atEof, sched, faulty, unit, eff, ended>>

-----------------------------------------------------------------------------
(* The unit *)

\* The answer to the request in progress that the unit gives, from its settings.
UnitTakes ==
    /\ taking
    /\ taking' = FALSE
    /\ UnitGot(now)
    /\ LET c == pm
           r == CodeRequest(c)
           list == Answers(r.cmd, r.expect)
           good == IF r.cmd = GetCmd["GetFanProfiles"]
                   THEN <<[d |-> 1, b |-> Reply(r.cmd, unit), err |-> ""]>> ELSE list[1]
       IN
       \E i \in 1..Len(list) :
          LET a == IF i = 1 THEN good ELSE list[i]
              at == FoldLeft(LAMBDA acc, g : Append(acc, [at |-> (IF acc = <<>> THEN now ELSE acc[Len(acc)].at) + g.d,
                                                          b |-> g.b, err |-> g.err]), <<>>, a)
          IN
          /\ i # 1 => faulty < MaxFaulty
          /\ faulty' = faulty + (IF i = 1 THEN 0 ELSE 1)
          /\ sched' = Append(sched, at)
          /\ hist' = Append(hist, [h |-> "ans", c |-> c, t |-> now, segs |-> a])
          /\ IF r.cmd = SetProfilesCmd
             THEN /\ unit' = [j \in 1..14 |-> CASE j \in 1..6 -> r.data[j]
                                                [] j = 11 -> r.data[7] [] j = 12 -> r.data[8]
                                                [] OTHER -> unit[j]]
                  /\ eff' = Append(eff, Cid(c))
             ELSE UNCHANGED <<unit, eff>>
    /\ UNCHANGED <<pc, am, pm, pend, inbox, atEof, scan, cut, due, wleft, ended>>

UnitSays(n) ==
    /\ ~taking
    /\ n \in 1..Len(sched) /\ sched[n] # <<>> /\ Head(sched[n]).at <= now
    /\ LET g == Head(sched[n]) IN
       /\ UnitSend(n, g.b, g.err, now)
       /\ inbox' = Append(inbox, [b |-> g.b, err |-> g.err])
       /\ sched' = [sched EXCEPT ![n] = Tail(@)]
    /\ UNCHANGED <<pc, am, pm, pend, atEof, scan, cut, due, taking, wleft, faulty, unit, eff, ended, hist>>

-----------------------------------------------------------------------------
(* Reading *)

\* With the flaw "swallow": a Read whose query is gone.
Orphaned ==
    /\ ~taking /\ pend.st = "orphan" /\ inbox # <<>>
    /\ pend' = NoRead
    /\ inbox' = Tail(inbox)
    /\ atEof' = (atEof \/ Head(inbox).err = "eof")
    /\ HostRead(Head(inbox).b, Head(inbox).err # "", now)
    /\ UNCHANGED <<pc, am, pm, scan, cut, due, sched, taking, wleft, faulty, unit, eff, ended, hist>>

ConnRead ==
    /\ ~taking
    /\ pend.st = "waiting"
    /\ \/ /\ inbox # <<>>
          /\ pend' = [st |-> "done", b |-> Head(inbox).b, err |-> Head(inbox).err # ""]
          /\ inbox' = Tail(inbox)
          /\ atEof' = (atEof \/ Head(inbox).err = "eof")
          /\ HostRead(Head(inbox).b, Head(inbox).err # "", now)
       \/ /\ inbox = <<>> /\ atEof
          /\ pend' = [st |-> "done", b |-> <<>>, err |-> TRUE]
          /\ HostRead(<<>>, TRUE, now)
          /\ UNCHANGED <<inbox, atEof>>
    /\ UNCHANGED <<pc, am, pm, scan, cut, due, sched, taking, wleft, faulty, unit, eff, ended, hist>>

\* The query in progress needs input, and no Read is outstanding.
StartRead ==
    /\ ~taking /\ pm # 0
    /\ pend.st = "none"
    /\ \/ pc[pm].at = "open" /\ ~cut /\ Verdict(scan, CodeRequest(pm).expect, CodeRequest(pm).cmd).st = "more"
       \/ pc[pm].at = "drain"
    /\ pend' = [NoRead EXCEPT !.st = "waiting"]
    /\ UNCHANGED <<lvars, pc, am, pm, inbox, atEof, scan, cut, due, sched, taking, wleft, faulty, unit, eff, ended, hist>>

Take ==
    /\ ~taking /\ pm # 0 /\ pend.st = "done"
    /\ pc[pm].at = "open" /\ ~cut /\ Verdict(scan, CodeRequest(pm).expect, CodeRequest(pm).cmd).st = "more"
    /\ scan' = scan \o pend.b
    /\ cut' = pend.err
    /\ pend' = NoRead
    /\ UNCHANGED <<lvars, pc, am, pm, inbox, atEof, due, sched, taking, wleft, faulty, unit, eff, ended, hist>>

\* The answer is complete: acknowledge, release the line.
Accept ==
    /\ ~taking /\ pm # 0 /\ pc[pm].at = "open"
    /\ LET c == pm
           r == CodeRequest(c)
           v == Verdict(scan, r.expect, r.cmd)
           more == Op(c).op = "SetFanProfile" /\ pc[c].step = 1
           fits == more => Decodable("GetFanProfiles", v.data)
       IN
       /\ v.st = "ok"
       /\ pm' = 0
       /\ \/ /\ IF Flaw = "noack" THEN UNCHANGED lvars ELSE HostWrite(Cid(c), AckMark, FALSE, now)
             /\ wleft' = wleft /\ hist' = Append(hist, [h |-> "ack", c |-> c, t |-> now])
             /\ pc' = [pc EXCEPT ![c] = [@ EXCEPT !.at = IF more /\ fits THEN "pm" ELSE "ret",
                                                  !.step = IF more THEN 2 ELSE @,
                                                  !.ok = fits /\ (IsGet(Op(c).op) => Decodable(Op(c).op, v.data)),
                                                  !.v = v.data]]
          \/ /\ wleft > 0
             /\ HostWrite(Cid(c), <<>>, TRUE, now)
             /\ wleft' = wleft - 1
             /\ hist' = Append(hist, [h |-> "wfail", c |-> c, t |-> now])
             /\ pc' = [pc EXCEPT ![c] = [@ EXCEPT !.at = "ret", !.ok = FALSE]]
    /\ UNCHANGED <<am, pend, inbox, atEof, scan, cut, due, sched, taking, faulty, unit, eff, ended>>

\* The answer is no good: drop what else comes until the time is up.
Reject ==
    /\ ~taking /\ pm # 0 /\ pc[pm].at = "open"
    /\ LET v == Verdict(scan, CodeRequest(pm).expect, CodeRequest(pm).cmd) IN
       v.st = "err" \/ (v.st = "more" /\ cut)
    /\ IF Flaw = "eofok" /\ cut THEN pc' = [pc EXCEPT ![pm] = [@ EXCEPT !.at = "ret"]] /\ pm' = 0
       ELSE IF Flaw = "nodrain" THEN pc' = [pc EXCEPT ![pm] = [@ EXCEPT !.at = "ret", !.ok = FALSE]] /\ pm' = 0
       ELSE Set(pm, "drain") /\ UNCHANGED pm
    /\ cut' = FALSE
    /\ UNCHANGED <<lvars, am, pend, inbox, atEof, scan, due, sched, taking, wleft, faulty, unit, eff, ended, hist>>

GiveUp(c) ==
    /\ pc' = [pc EXCEPT ![c] = [@ EXCEPT !.at = "ret", !.ok = FALSE]]
    /\ pm' = 0

Discard ==
    /\ ~taking /\ pm # 0 /\ pc[pm].at = "drain" /\ pend.st = "done"
    /\ pend' = NoRead
    /\ IF pend.err THEN GiveUp(pm) ELSE UNCHANGED <<pc, pm>>
    /\ UNCHANGED <<lvars, am, inbox, atEof, scan, cut, due, sched, taking, wleft, faulty, unit, eff, ended, hist>>

Expire ==
    /\ ~taking /\ pm # 0 /\ now >= due
    /\ pc[pm].at \in {"open", "drain"}
    /\ GiveUp(pm)
    /\ pend' = IF Flaw = "swallow" /\ pend.st = "waiting" THEN [pend EXCEPT !.st = "orphan"] ELSE pend
    /\ UNCHANGED <<lvars, am, inbox, atEof, scan, cut, due, sched, taking, wleft, faulty, unit, eff, ended, hist>>

-----------------------------------------------------------------------------
ValueOf(c) ==
    LET o == Op(c) IN
    CASE IsGet(o.op) -> IF pc[c].ok THEN Decode(o.op, pc[c].v) ELSE ZeroOf(o.op)
      [] o.op = "Query" /\ o.a[2] = 1 -> [Command |-> (o.a[1] + 1) % 256, Data |-> pc[c].v]
      [] OTHER -> <<>>

Return(c) ==
    /\ pc[c].at = "ret"
    /\ ~taking
    /\ Ret(Cid(c), pc[c].ok, FALSE, ValueOf(c), now)
    /\ am' = IF am = c THEN 0 ELSE am
    /\ pc' = [pc EXCEPT ![c] = [@ EXCEPT !.at = "idle", !.k = @ + 1, !.ok = TRUE, !.v = <<>>]]
    /\ UNCHANGED <<pm, pend, inbox, atEof, scan, cut, due, sched, taking, wleft, faulty, unit, eff, ended, hist>>

AllDone == \A c \in Callers : pc[c].at = "idle" /\ pc[c].k > Len(Prog(c))

Over ==
    /\ AllDone /\ ~ended
    /\ End(now)
    /\ ended' = TRUE
    /\ UNCHANGED <<pc, am, pm, pend, inbox, atEof, scan, cut, due, sched, taking, wleft, faulty, unit, eff, hist>>

\* What must be done before time passes.  A caller may wait before its next call.
Busy ==
    \/ taking
    \/ \E n \in 1..Len(sched) : sched[n] # <<>> /\ Head(sched[n]).at <= now
    \/ pend.st = "waiting" /\ (inbox # <<>> \/ atEof)
    \/ pend.st = "orphan" /\ inbox # <<>>
    \/ \E c \in Callers : pc[c].at = "ret" \/ (pc[c].at = "am" /\ am = 0) \/ (pc[c].at = "pm" /\ pm = 0)
    \/ pm # 0 /\ (pend.st \notin {"waiting", "orphan"} \/ now >= due)

\* Something is bound to happen later.
Awaited == pm # 0 \/ \E n \in 1..Len(sched) : sched[n] # <<>>

Tick ==
    /\ ~Busy /\ ~AllDone /\ Awaited
    /\ now' = now + 1
    /\ UNCHANGED <<calls, x, asked, stray, noise, failed, freeAt, gone, murky, viol>>
    /\ UNCHANGED ivars

Step ==
    \/ \E c \in Callers : ~taking /\ Begin(c)
    \/ \E c \in Callers : ~taking /\ LockAPI(c)
    \/ \E c \in Callers : Ask(c)
    \/ UnitTakes
    \/ \E n \in 1..Len(sched) : UnitSays(n)
    \/ Orphaned \/ ConnRead \/ StartRead \/ Take \/ Accept \/ Reject \/ Discard \/ Expire
    \/ \E c \in Callers : Return(c)
    \/ Over
    \/ Tick

\* A state from which nothing follows is an error, unless all is over.
Next == Step \/ (ended /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* For simulation: behaviours end.
SimSpec == Init /\ [][Step]_vars

-----------------------------------------------------------------------------
(* Nothing but progress of time and idle callers is ever waited for. *)
OneQuery == Cardinality({c \in Callers : pc[c].at \in {"open", "drain"}}) <= 1

\* The profiles are what the changes, one after another, make of them.
Apply(p, id) ==
    LET o == Prog(id \div 10)[id % 10]
        v == IF o.op = "SetFanProfile" THEN WithProfile(Decode("GetFanProfiles", p), o.a[1], o.a[2])
             ELSE ArgProfiles(o.a)
        w == ProfilesPayload(v)
    IN [j \in 1..14 |-> CASE j \in 1..6 -> w[j] [] j = 11 -> w[7] [] j = 12 -> w[8] [] OTHER -> p[j]]
Sequential == unit = FoldLeft(Apply, Unit0, eff)
=============================================================================
