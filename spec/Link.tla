-------------------------------- MODULE Link --------------------------------
(***************************************************************************)
(* The library's conversation with the unit, as seen from outside: calls   *)
(* of the library, bytes it writes to the connection, bytes it reads from  *)
(* it, bytes the unit sends, and returns.                                  *)
(*                                                                         *)
(* Each action is one observable step and updates the state of the calls   *)
(* and of the exchange in progress.  What a step must satisfy is written   *)
(* as Need(labels, condition): when the condition does not hold, the       *)
(* labels (property identifiers) join the set viol.  A behaviour is        *)
(* correct iff viol stays empty.  The same actions are driven              *)
(*   - by LinkImpl.tla, a model of the code, where TLC shows viol = {} for *)
(*     every interleaving and every unit behaviour within bounds, and      *)
(*   - by LinkTrace.tla, with the events recorded from the real code.      *)
(* After a step that breaks only labels in Soft the state is still sound,  *)
(* and judging the rest of the behaviour makes sense.                      *)
(***************************************************************************)
EXTENDS Wire

CONSTANTS Timeout,   \* length of an exchange's time budget
          Early,     \* an answer complete within this time must be taken
          Late,      \* an exchange must be over after this time
          Prompt,    \* a free line is given to a waiting call within this time
          Glance     \* input this shortly before a request may be taken for its answer

VARIABLES now,       \* time of the last event
          calls,     \* calls in progress: id -> record
          x,         \* the exchange in progress
          asked,     \* requests the unit has received: sequence of records
          stray,     \* time of the last input taken while no exchange was open
          noise,     \* what the unit sent of its own accord, and failed writes: a count
          failed,    \* numbers of the exchanges that failed
          freeAt,    \* when the line was last seen to become free
          gone,      \* the unit has ended the stream
          murky,     \* input raced with a request: what follows is not judged
          viol       \* properties seen broken
lvars == <<now, calls, x, asked, stray, noise, failed, freeAt, gone, murky, viol>>

-----------------------------------------------------------------------------
(* Helpers *)

Soft == {"C05", "C11"}

Need(labels, cond) == IF cond THEN {} ELSE labels

IsPfx(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Rest(a, b)  == SubSeq(b, Len(a) + 1, Len(b))      \* b without its prefix a

Drop(f, k) == [i \in DOMAIN f \ {k} |-> f[i]]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]

NoX == [on |-> FALSE, id |-> 0, n |-> 0, cmd |-> 0, expect |-> FALSE, tx |-> <<>>, t0 |-> 0,
        p |-> ParserInit(FALSE, 0), rerr |-> FALSE, werr |-> FALSE, ack |-> <<>>]

LinkInit ==
    /\ now = 0
    /\ calls = [i \in {} |-> 0]
    /\ x = NoX
    /\ asked = <<>>
    /\ stray = -1000000
    /\ noise = 0
    /\ failed = {}
    /\ gone = FALSE
    /\ murky = FALSE
    /\ freeAt = 0
    /\ viol = {}

Getters == GetOps
IsGet(op) == op \in Getters

\* The profiles in a SetFanProfiles call's arguments.
ArgProfiles(a) ==
    [OutAway |-> a[1], OutLow |-> a[2], OutMid |-> a[3], OutHigh |-> a[4],
     InAway |-> a[5], InLow |-> a[6], InMid |-> a[7], InHigh |-> a[8]]

NoReq == [cmd |-> -1, data |-> <<>>, expect |-> FALSE]

\* The request that a call c is to transmit next, NoReq if none.
Request(c) ==
    CASE c.left = 0 -> NoReq
      [] IsGet(c.op) -> [cmd |-> GetCmd[c.op], data |-> <<>>, expect |-> TRUE]
      [] c.op = "SetComfort" -> IF ComfortOk(c.a[1])
            THEN [cmd |-> SetComfortCmd, data |-> <<ComfortByte(c.a[1])>>, expect |-> FALSE] ELSE NoReq
      [] c.op = "SetSpeed" -> IF SpeedOk(c.a[1])
            THEN [cmd |-> SetSpeedCmd, data |-> <<c.a[1]>>, expect |-> FALSE] ELSE NoReq
      [] c.op = "SetFanProfiles" ->
            [cmd |-> SetProfilesCmd, data |-> ProfilesPayload(ArgProfiles(c.a)), expect |-> FALSE]
      [] c.op = "SetFanProfile" ->
            IF ~ProfileOk(c.a[1], c.a[2]) THEN NoReq
            ELSE IF c.left = 2 THEN [cmd |-> GetCmd["GetFanProfiles"], data |-> <<>>, expect |-> TRUE]
            ELSE IF ~Decodable("GetFanProfiles", c.got) THEN NoReq
            ELSE [cmd |-> SetProfilesCmd, expect |-> FALSE,
                  data |-> ProfilesPayload(WithProfile(Decode("GetFanProfiles", c.got), c.a[1], c.a[2]))]
      [] c.op = "Query" -> IF Len(c.a) - 2 > MaxPayload THEN NoReq
            ELSE [cmd |-> c.a[1], data |-> SubSeq(c.a, 3, Len(c.a)), expect |-> c.a[2] = 1]
      [] c.op = "Write" -> IF Len(c.a) - 1 > MaxPayload THEN NoReq
            ELSE [cmd |-> c.a[1], data |-> SubSeq(c.a, 2, Len(c.a)), expect |-> FALSE]

\* Exchanges a call consists of, if it is not refused and nothing fails.
Steps(op) == IF op = "SetFanProfile" THEN 2 ELSE IF op = "Decode" THEN 0 ELSE 1

NewCall(op, a, t) ==
    [op |-> op, a |-> a, left |-> Steps(op), t |-> t, ref |-> FALSE,
     res |-> "none",      \* "ok" / "err" once decided
     got |-> <<>>,        \* payload of the last accepted answer
     lax |-> FALSE]       \* that answer had an oddity that makes its value open

\* A call whose arguments are outside the documented range.
Refused(c) == c.left = Steps(c.op) /\ Request(c) = NoReq

-----------------------------------------------------------------------------
(* The exchange in progress *)

Sent(e) == e.on /\ e.tx = <<>>                \* the request is out
Answered(e) == Sent(e) /\ e.p.st \in {"ok", "loose"}
Acked(e) == e.on /\ e.ack = <<>>

\* The library may give up on exchange e at time t: something went wrong, or
\* time is up.  An answer read before the request was out leaves it open.
MayFail(e, t) ==
    \/ e.werr \/ e.rerr
    \/ e.tx = <<>> /\ \/ e.p.st \in {"bad", "loose"}
                      \/ e.p.st = "more" /\ ~Viable(e.p)
                      \/ t >= e.t0 + Early

\* The unit answered request n properly: with exactly one good answer, in time.
Proper(r) == r.p.st = "ok" /\ ~r.p.more /\ ~r.err /\ r.last <= r.t0 + Early
Faults == Cardinality({n \in 1..Len(asked) : ~Proper(asked[n])}) + noise
FaultsBut(e) == Cardinality({n \in 1..Len(asked) : n # e.n /\ ~Proper(asked[n])}) + noise

\* Exchanges that failed although the unit answered them properly.
Spoiled == Cardinality({n \in failed : Proper(asked[n])})

\* Labels broken by exchange e failing at time t.
Unlucky(e) == e.n # 0 /\ Proper(asked[e.n]) /\ ~e.werr
FailLabels(e, t) ==
    LET f == FaultsBut(e)
        lostIt == IF e.expect THEN {"C02"} ELSE {"C04"} IN
    IF f > 0 THEN {}            \* leftovers: a matter for C08
    ELSE IF Unlucky(e) THEN lostIt
    ELSE Need(lostIt, MayFail(e, t)) \cup Need({"C07"}, MayFail(e, t) \/ e.p.st # "more")

-----------------------------------------------------------------------------
(* A library function is called. *)
Call(id, op, a, t) ==
    /\ id \notin DOMAIN calls
    /\ now' = t
    /\ calls' = Put(calls, id, NewCall(op, a, t))
    /\ UNCHANGED <<x, asked, stray, noise, failed, freeAt, gone, murky, viol>>

-----------------------------------------------------------------------------
(* The library writes bytes b for call id; err: the write failed, of the   *)
(* bytes it was given only b got out.                                      *)

\* The well-formed request that starts b, if any: its payload.
SaneFrame(b) ==
    /\ Len(b) >= 8
    /\ LET p == Feed([ParserInit(TRUE, (b[4] + 255) % 256) EXCEPT !.ph = "S0"], b)
       IN p.st = "ok"

HostWrite(id, b, err, t) ==
    LET contReq == x.on /\ x.tx # <<>> /\ ~x.werr
        contAck == Sent(x) /\ ~Acked(x) /\ IsPfx(b, x.ack) /\ ~x.werr /\ b # <<>>
        failAck == id = x.id /\ Sent(x) /\ ~Acked(x) /\ b = <<>> /\ err /\ Answered(x)
        c == calls[id]
        req == Request(c)
        want == Frame(req.cmd, req.data)
        over == ~x.on \/ Acked(x) \/ MayFail(x, t)
        lost == x.on /\ ~Acked(x)          \* the exchange before is being given up
        closing == IF lost THEN FailLabels(x, t) ELSE {}
    IN
    /\ now' = t
    /\ CASE contReq ->
              \* more of the same request
              /\ x' = [x EXCEPT !.tx = IF IsPfx(b, @) THEN Rest(b, @) ELSE @, !.werr = err, !.t0 = t]
              /\ viol' = viol \cup Need({"C01"}, IsPfx(b, x.tx))
                              \cup Need({"C01"}, err \/ b # <<>>)
              /\ noise' = noise + (IF err THEN 1 ELSE 0)
              /\ UNCHANGED <<calls, asked, stray, failed, freeAt, gone, murky>>
         [] contAck \/ failAck ->
              \* the acknowledgement to the unit
              LET done == ~err /\ Rest(b, x.ack) = <<>>
                  o == calls[x.id]
                  bad == x.p.st \notin {"ok", "loose"}   \* acknowledging what is no answer
              IN
              /\ x' = [x EXCEPT !.ack = Rest(b, @), !.werr = err]
              /\ viol' = viol \cup Need({"C05"}, ~bad)
              /\ calls' = IF ~done \/ x.id \notin DOMAIN calls THEN calls
                          ELSE [calls EXCEPT ![x.id] =
                                  [@ EXCEPT !.got = x.p.data, !.lax = (x.p.st = "loose"),
                                            !.left = @ - 1,
                                            !.res = IF bad THEN "wrong"
                                                    ELSE IF o.op = "SetFanProfile" /\ o.left = 2
                                                    THEN (IF Decodable("GetFanProfiles", x.p.data)
                                                          THEN "none" ELSE "err")
                                                    ELSE "ok"]]
              /\ freeAt' = t
              /\ murky' = (murky \/ (done /\ x.p.st = "loose" /\ x.id \in DOMAIN calls /\ o.left = 2))
              /\ noise' = noise + (IF err THEN 1 ELSE 0)
              /\ UNCHANGED <<asked, stray, failed, gone>>
         [] OTHER ->
              \* the first bytes of a request
              /\ id \in DOMAIN calls
              /\ LET missing == x.on /\ Answered(x) /\ ~Acked(x) /\ ~x.werr /\ t < x.t0 + Early /\ x.p.st = "ok"
                     isAck == IsPfx(b, AckMark) /\ b # <<>>
                     mine == req # NoReq /\ c.res = "none" /\ IsPfx(b, want) /\ (b # <<>> \/ err)
                             /\ ~(lost /\ x.id = id)
                     \* what is wrong with the bytes
                     wrong == IF isAck THEN {"C05"}
                              ELSE IF c.res # "none" \/ c.left = 0 THEN {"C01"}
                              ELSE IF req = NoReq THEN (IF c.op \in {"Query", "Write"} THEN {"C01"} ELSE {"C10"})
                              ELSE IF SaneFrame(b) /\ c.op = "SetFanProfile" THEN {"C11"}
                              ELSE IF SaneFrame(b) /\ c.op \in {"SetComfort", "SetSpeed", "SetFanProfiles"} THEN {"C10"}
                              ELSE {"C01"}
                     prevOwner == x.id
                     \* another call read the profiles and has not written them back yet
                     between == req.cmd = SetProfilesCmd /\
                                \E j \in DOMAIN calls \ {id} : calls[j].op = "SetFanProfile"
                                     /\ calls[j].left = 1 /\ calls[j].res = "none"
                                     /\ ~(x.on /\ x.id = j)
                     since == IF lost THEN (IF freeAt > x.t0 + Late THEN freeAt ELSE x.t0 + Late) ELSE freeAt
                     ready == IF c.t > since THEN c.t ELSE since
                     gaveUp == lost /\ over /\ ~missing
                 IN
                 /\ viol' = viol \cup Need(wrong, mine)
                                 \cup Need({"C05"}, ~missing)
                                 \cup Need({"C06"}, over)
                                 \cup Need({"C11"}, ~mine \/ ~between)
                                 \cup Need({"C07"}, t <= ready + Prompt \/ c.left # Steps(c.op))
                                 \cup (IF gaveUp THEN closing ELSE {})
                 /\ failed' = failed \cup (IF gaveUp /\ x.n # 0 THEN {x.n} ELSE {})
                 /\ calls' = IF lost /\ prevOwner \in DOMAIN calls
                             THEN [calls EXCEPT ![prevOwner] = [@ EXCEPT !.res = "err"]] ELSE calls
                 /\ x' = [NoX EXCEPT !.on = TRUE, !.id = id, !.cmd = req.cmd, !.expect = req.expect,
                                     !.tx = IF mine THEN Rest(b, want) ELSE <<>>, !.t0 = t, !.werr = err,
                                     !.p = ParserInit(req.expect, req.cmd),
                                     !.ack = IF c.op = "Write" THEN <<>> ELSE AckMark]
                 /\ murky' = (murky \/ t <= stray + Glance)
                 /\ noise' = noise + (IF err THEN 1 ELSE 0)
                 /\ freeAt' = t
                 /\ UNCHANGED <<asked, stray, gone>>

-----------------------------------------------------------------------------
(* Bytes are written although no call is in progress. *)
Rogue(t) ==
    /\ now' = t
    /\ viol' = viol \cup {"C01", "C05", "C06"}
    /\ UNCHANGED <<calls, x, asked, stray, noise, failed, freeAt, gone, murky>>

-----------------------------------------------------------------------------
(* The unit has received a request. *)
UnitGot(t) ==
    /\ now' = t
    /\ asked' = Append(asked, [t0 |-> t, p |-> ParserInit(x.expect, x.cmd), err |-> gone, last |-> t])
    /\ x' = IF x.on THEN [x EXCEPT !.n = Len(asked) + 1] ELSE x
    /\ UNCHANGED <<calls, stray, noise, failed, freeAt, gone, murky, viol>>

\* The unit has received something that is no request.
UnitJunk(t) ==
    /\ now' = t
    /\ noise' = noise + 1
    /\ UNCHANGED <<calls, x, asked, stray, failed, freeAt, gone, murky, viol>>

(* The unit sends bytes b in answer to request n (0: of its own accord),   *)
(* and perhaps ends the stream (err "eof") or makes reading fail ("err").    *)
UnitSend(n, b, err, t) ==
    /\ now' = t
    /\ IF n \in 1..Len(asked)
       THEN /\ asked' = [asked EXCEPT ![n] =
                  [@ EXCEPT !.p = Feed(@, b), !.last = t, !.err = @ \/ err # "" \/ gone]]
            /\ noise' = noise
       ELSE asked' = asked /\ noise' = noise + 1
    /\ gone' = (gone \/ err = "eof")
    /\ UNCHANGED <<calls, x, stray, failed, freeAt, murky, viol>>

-----------------------------------------------------------------------------
(* The library has read bytes b, possibly with an error or the end of the  *)
(* stream after them.                                                      *)
HostRead(b, err, t) ==
    /\ now' = t
    /\ IF x.on /\ ~Acked(x)
       THEN /\ x' = [x EXCEPT !.p = Feed(@, b),
                              !.rerr = @ \/ (err /\ Feed(x.p, b).st # "ok")]
            /\ stray' = IF t >= x.t0 + Early THEN t ELSE stray
       ELSE x' = x /\ stray' = t
    /\ UNCHANGED <<calls, asked, noise, failed, freeAt, gone, murky, viol>>

-----------------------------------------------------------------------------
(* A call returns: ok with value v, or an error (with what value it has).  *)

OkLabels(c, v) ==
    CASE IsGet(c.op) -> Need({"C09"}, Decodable(c.op, c.got) /\ v = Decode(c.op, c.got))
      [] c.op = "Query" /\ c.a[2] = 1 ->
            Need({"C02"}, v = [Command |-> (c.a[1] + 1) % 256, Data |-> c.got])
      [] OTHER -> {}

\* Decoding a reply (code, payload) that was not fetched in an exchange.
DecodeLabels(a, ok, v) ==
    LET of == {o \in GetOps : GetCmd[o] + 1 = a[1]}
        d == SubSeq(a, 2, Len(a)) IN
    Need({"C09"}, IF ok THEN \E o \in of : Decodable(o, d) /\ v = Decode(o, d)
                  ELSE \A o \in of : ~Decodable(o, d))

Ret(id, ok, panic, v, t) ==
    LET c == calls[id]
        mine == x.on /\ x.id = id
        open == mine /\ ~Acked(x)
        refused == Refused(c)
        wr == c.op = "Write"
    IN
    /\ id \in DOMAIN calls
    /\ now' = t
    /\ viol' = viol \cup
        (IF c.op = "Decode" THEN (IF panic THEN {"C09"} ELSE DecodeLabels(c.a, ok, v))
         ELSE IF panic THEN (IF IsGet(c.op) THEN {"C03", "C09"}
                        ELSE IF c.op \in {"Query", "Write"} THEN {"C01", "C02", "C03"} ELSE {"C04", "C10"})
         ELSE IF refused THEN Need(IF c.op \in {"Query", "Write"} THEN {"C01"} ELSE {"C10"}, ~ok /\ ~mine)
         ELSE IF wr THEN Need({"C01"}, mine /\ (ok <=> (~x.werr /\ x.tx = <<>>)))
         ELSE IF c.left = Steps(c.op) /\ ~mine /\ c.res = "none" THEN
              \* nothing was ever written for it
              (IF ok THEN (IF c.op \in {"SetComfort", "SetSpeed", "SetFanProfile", "SetFanProfiles"}
                           THEN {"C04", "C10"} ELSE {"C03"})
               ELSE IF IsGet(c.op) THEN {"C01", "C02"} ELSE {"C10", "C01"})
         ELSE IF open THEN
              (IF ok THEN
                 (IF x.tx # <<>> \/ (x.werr /\ ~Answered(x)) THEN {"C01"} \cup (IF x.expect THEN {"C03"} ELSE {"C04"})
                  ELSE IF Answered(x) THEN {"C05"}
                  ELSE IF x.expect THEN {"C03"} ELSE {"C04"})
               ELSE FailLabels(x, t) \cup Need({"C07"}, t <= x.t0 + Late)
                    \cup Need({"C03"}, IsGet(c.op) => v = ZeroOf(c.op)))
         ELSE IF c.res = "ok" THEN
              (IF ok THEN (IF c.lax THEN {} ELSE OkLabels(c, v))
               ELSE IF c.lax THEN {}
               ELSE IF IsGet(c.op) THEN Need({"C09"}, ~Decodable(c.op, c.got)) 
                                        \cup Need({"C03"}, ~Decodable(c.op, c.got) => v = ZeroOf(c.op))
               ELSE IF c.op = "Query" /\ c.a[2] = 1 THEN {"C02"}
               ELSE {"C04"})
         ELSE IF c.res \in {"err", "wrong"} THEN
              Need(IF IsGet(c.op) \/ (c.op = "Query" /\ c.a[2] = 1) THEN {"C03"} ELSE {"C04"}, ~ok)
         ELSE \* a profile change whose write never came
              Need({"C11"}, FALSE))
    /\ failed' = failed \cup (IF open /\ ~ok /\ x.n # 0 THEN {x.n} ELSE {})
    /\ calls' = Drop(calls, id)
    /\ x' = IF mine THEN [x EXCEPT !.on = FALSE] ELSE x
    /\ freeAt' = IF mine THEN t ELSE freeAt
    /\ UNCHANGED <<asked, stray, noise, gone, murky>>

(* A value returned earlier is looked at again; same: it is as it was.     *)
Look(same, t) ==
    /\ now' = t
    /\ viol' = viol \cup Need({"C09"}, same)
    /\ UNCHANGED <<calls, x, asked, stray, noise, failed, freeAt, gone, murky>>

\* Every call has returned.
End(t) ==
    /\ now' = t
    /\ viol' = viol \cup Need({"C07"}, DOMAIN calls = {})
                    \cup Need({"C08"}, Spoiled <= Faults)
    /\ UNCHANGED <<calls, x, asked, stray, noise, failed, freeAt, gone, murky>>

\* A call never returned, or the library took the program down.
Hang(t) ==
    /\ now' = t
    /\ viol' = viol \cup {"C07", "C08"}
                    \cup (IF ~x.on \/ Acked(x) THEN {} ELSE IF ~x.expect THEN {"C04"} ELSE IF Unlucky(x) THEN {"C02"} ELSE {"C03"})
    /\ UNCHANGED <<calls, x, asked, stray, noise, failed, freeAt, gone, murky>>

-----------------------------------------------------------------------------
NoViolation == viol = {}
=============================================================================
