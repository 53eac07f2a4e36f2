--------------------------------- MODULE Http ---------------------------------
(***************************************************************************)
(* The program as seen by its HTTP clients and the unit: requests and      *)
(* responses on one side, the exchanges they lead to on the other.         *)
(*                                                                         *)
(* Each action is one observable step and adds "C23" to viol if the step   *)
(* shows that an operation is not carried faithfully: not what was asked   *)
(* for, not the operation's outcome, or not in the published form.  What   *)
(* operations have to do and to answer in detail is Server's subject; here *)
(* it matters as far as it shows from outside in real time.                *)
(*                                                                         *)
(* HttpImpl drives these actions with a model of the program, HttpTrace    *)
(* with recorded runs of the real one.                                     *)
(***************************************************************************)
EXTENDS Api, Proto

CONSTANTS
    Settle,     \* after it was sent an answer is served to everybody within this time
    Bound       \* time to answer

VARIABLES
    now,
    hist,       \* per data set: answers [t, p] that may be served, oldest first
    x,          \* the request that the unit got last, if the server may still accept the answer
    gone,       \* the connection with the unit has ended
    calls,      \* HTTP requests in progress
    viol
hvars == <<now, hist, x, gone, calls, viol>>

NoReq == [on |-> FALSE, cmd |-> 0, ds |-> "none", k |-> "", p |-> <<>>, d |-> <<>>]
Clean == [now |-> 0, hist |-> [ds \in Sets |-> <<[t |-> -1000000, p |-> <<>>]>>], x |-> NoReq, gone |-> FALSE, calls |-> [i \in {} |-> 0], viol |-> {}]
HttpInit == now = Clean.now /\ hist = Clean.hist /\ x = Clean.x /\ gone = Clean.gone /\ calls = Clean.calls /\ viol = Clean.viol
HBegin == now' = Clean.now /\ hist' = Clean.hist /\ x' = Clean.x /\ gone' = Clean.gone /\ calls' = Clean.calls /\ viol' = Clean.viol

Drop(f, k) == [i \in DOMAIN f \ {k} |-> f[i]]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
Need(cond) == IF cond THEN {} ELSE {"C23"}

\* Values that a read between a and b may show.
Vals(ds, a, b) ==
    LET h == hist[ds] IN
    {Value(ds, h[i].p) : i \in {i \in DOMAIN h : h[i].t <= b /\ \A j \in DOMAIN h : j > i => h[j].t + Settle >= a}}

-----------------------------------------------------------------------------
(* Requests *)

IsJson(ct) == ct \in {"application/json", "application/json; charset=utf-8", "application/json;charset=UTF-8"}
Binary(ct) == ct \in {"application/protobuf"}

\* What an HTTP request asks for: operation op with arguments a, or why it cannot be carried out.
Asked(method, path, ct, body) ==
    LET op == OpAt(path)
        m == In[op]
        r == IF IsJson(ct) THEN DecJson(m, body) ELSE DecProto(m, body)
        v == r.v
        no(why) == [ok |-> FALSE, why |-> why, op |-> op, a |-> <<>>]
        bit(b) == IF b THEN 1 ELSE 0
    IN
    IF method # "POST" \/ op = "none" THEN no("route")
    ELSE IF ~IsJson(ct) /\ ~Binary(ct) THEN no("type")
    ELSE IF IsJson(ct) /\ (\E i \in DOMAIN body : body[i][2] = "bad") THEN no("malformed")
    ELSE IF ~r.ok THEN no("malformed")
    ELSE [ok |-> TRUE, why |-> "", op |-> op,
          a |-> CASE op = "SetFanSpeed" -> <<v.Abs, bit(v.Rel)>>
                  [] op = "SetFanProfile" -> <<v.Mode, v.TargetSpeed>>
                  [] op = "SetComfortTemp" -> <<v.ComfortTemp>>
                  [] op = "FlushCache" -> <<v.Cache>>
                  [] OTHER -> <<>>]

Request(id, method, path, ct, body, t) ==
    LET r == Asked(method, path, ct, body)
        changes == IsChange(r.op)
        calls2 == [i \in DOMAIN calls |-> [calls[i] EXCEPT !.alone = @ /\ ~changes]]
    IN
    /\ id \notin DOMAIN calls
    /\ now' = t
    /\ calls' = Put(calls2, id,
          [r |-> r, ct |-> ct, t |-> t,
           alone |-> ~(changes /\ \E i \in DOMAIN calls : IsChange(calls[i].r.op)),   \* no other change meanwhile
           sent |-> {},       \* commands that the unit got since: [c, d, ok]
           good |-> {}, fail |-> {},   \* data sets: fetched, not fetched
           bad |-> x.on /\ x.k # "ok",
           shown |-> {}])     \* duties that the unit reported
    /\ UNCHANGED <<hist, x, gone, viol>>

-----------------------------------------------------------------------------
(* The unit gets a request and answers it as k says ("ok": properly, with  *)
(* payload p, in time).                                                    *)
Ask(cmd, d, k, p, t) ==
    LET ds == SetOf(cmd)
        upd(c) == [c EXCEPT !.bad = @ \/ x.on,
                            !.fail = IF x.on THEN @ \cup {x.ds} ELSE @,
                            !.sent = IF ds = "none" THEN @ \cup {[c |-> cmd, d |-> d, ok |-> FALSE]} ELSE @]
    IN
    /\ now' = t
    /\ x' = [on |-> TRUE, cmd |-> cmd, ds |-> ds, k |-> k, p |-> p, d |-> d]
    /\ calls' = [id \in DOMAIN calls |-> upd(calls[id])]
    /\ UNCHANGED <<hist, gone, viol>>

\* The unit answers, or acknowledges a command.
Answer(t) ==
    LET good == x.on /\ x.k = "ok"
        fetched == good /\ x.ds # "none" /\ Decodable(FetchOp[x.ds], x.p)
        shown == LET v == Decode("GetFans", x.p) IN <<v.InPercent, v.OutPercent>>
        upd(c) ==
            [c EXCEPT !.good = IF fetched THEN @ \cup {x.ds} ELSE @,
                      !.fail = IF ~fetched THEN @ \cup {x.ds} ELSE @,
                      !.bad = @ \/ (x.ds # "none" /\ ~fetched),
                      !.sent = IF good /\ x.ds = "none" THEN @ \cup {[c |-> x.cmd, d |-> x.d, ok |-> TRUE]} ELSE @,
                      !.shown = IF fetched /\ x.ds = "fans" THEN @ \cup {shown} ELSE @]
        since == {calls[i].t : i \in DOMAIN calls} \cup {t}
        first == CHOOSE s \in since : \A r \in since : s <= r
        prune(h) == LET keep == {i \in DOMAIN h : \A j \in DOMAIN h : j > i => h[j].t + Settle >= first}
                    IN SubSeq(h, CHOOSE i \in keep : \A j \in keep : i <= j, Len(h))
    IN
    /\ now' = t
    /\ hist' = IF fetched THEN [hist EXCEPT ![x.ds] = Append(prune(@), [t |-> t, p |-> x.p])] ELSE hist
    /\ calls' = [id \in DOMAIN calls |-> upd(calls[id])]
    /\ x' = NoReq
    /\ UNCHANGED <<gone, viol>>

\* The connection with the unit ends: from now on everything fails.
Gone(t) == now' = t /\ gone' = TRUE /\ UNCHANGED <<hist, x, calls, viol>>

-----------------------------------------------------------------------------
(* Responses *)

\* Something failed that the call may be about.
Failed(c) == c.bad \/ x.on \/ gone
Carried(c, cmd, d) == [c |-> cmd, d |-> d, ok |-> TRUE] \in c.sent
Tried(c, cmd) == \E s \in c.sent : s.c = cmd

\* Text that is the unit's, if it is a proper text; of another text its plain characters remain.
Plain(s) == SelectSeq(s, LAMBDA b : b < 128)
SameText(got, name) == IF \A i \in DOMAIN name : name[i] < 128 THEN got = name
                       ELSE SelectSeq(Plain(got), LAMBDA b : b # 63) = SelectSeq(Plain(name), LAMBDA b : b # 63)
Shows(op, v, w) ==
    IF op = "GetBootInfo" THEN [v EXCEPT !.DeviceName = <<>>] = [w EXCEPT !.DeviceName = <<>>] /\ SameText(v.DeviceName, w.DeviceName)
    ELSE v = w

\* Operation c.r is answered with value v: is this what it came to?
ValueOk(c, v, t) ==
    LET op == c.r.op
        a == c.r.a
        profiles == Vals("profiles", c.t, t)
    IN
    CASE IsRead(op) -> \E w \in Vals(ReadOf[op], c.t, t) : Shows(op, v, w)
      [] op = "FlushCache" ->
           /\ v.ReqTime # <<>>
           /\ v.Success => Named(a[1]) # {} /\ Named(a[1]) \subseteq c.good
           /\ ~v.Success => Named(a[1]) = {} \/ Failed(c) \/ Named(a[1]) \cap c.fail # {}
      [] op = "SetComfortTemp" ->
           /\ ComfortOk(a[1]) /\ v.ReqTime # <<>> /\ v.TargetTemp = a[1]
           /\ \E w \in Vals("temps", c.t, t) : w.Comfort < 0 \/ w.Comfort = v.OriginalTemp
           /\ IF v.Modified THEN Carried(c, SetComfortCmd, <<ComfortByte(a[1])>>)
              ELSE v.OriginalTemp = a[1] /\ (c.alone => ~Tried(c, SetComfortCmd))
      [] op = "SetFanProfile" ->
           /\ ProfileArgsOk(a) /\ v.ReqTime # <<>> /\ v.TargetSpeed = a[2]
           /\ \E w \in profiles : Duties(w, a[1])[1] = v.OriginalSpeed
           /\ IF v.Modified
              THEN \E w \in profiles : Carried(c, SetProfilesCmd, ProfilesPayload(WithProfile(w, a[1] - 1, a[2])))
              ELSE v.OriginalSpeed = a[2] /\ (c.alone => ~Tried(c, SetProfilesCmd))
      [] OTHER ->
           /\ v.ReqTime # <<>> /\ v.TargetSpeed \in 1..4
           /\ \E w \in profiles : v.OriginalSpeed = w.CurrentMode /\ v.TargetSpeed = SpeedTarget(a, w.CurrentMode)
           /\ IF v.Modified THEN Carried(c, SetSpeedCmd, <<v.TargetSpeed>>)
              ELSE v.OriginalSpeed = v.TargetSpeed /\ (c.alone => ~Tried(c, SetSpeedCmd))

\* The server may refuse the request.
Refusable(c, t) ==
    LET op == c.r.op
        a == c.r.a
    IN
    CASE op = "SetFanSpeed" -> \E w \in Vals("profiles", c.t, t) : SpeedTarget(a, w.CurrentMode) = 0
      [] op = "SetFanProfile" -> ~ProfileArgsOk(a)
      [] op = "SetComfortTemp" -> ~ComfortOk(a[1])
      [] OTHER -> FALSE
\* The unit may have failed the operation.
Failable(c, t) ==
    LET op == c.r.op
        a == c.r.a
    IN
    CASE op = "SetFanSpeed" ->
           \/ Failed(c) /\ (gone \/ Tried(c, SetSpeedCmd))
           \/ Tried(c, SetSpeedCmd) /\ \E w \in Vals("profiles", c.t, t) :
                SpeedTarget(a, w.CurrentMode) \in 1..4
                /\ \E z \in Vals("profiles", c.t, t) : \E s \in c.shown : s # Duties(z, SpeedTarget(a, w.CurrentMode))
      [] op = "SetFanProfile" -> ProfileArgsOk(a) /\ Failed(c)
      [] op = "SetComfortTemp" -> (~ComfortOk(a[1]) /\ a[1] < 256) \/ (Failed(c) /\ (gone \/ Tried(c, SetComfortCmd)))
      [] OTHER -> FALSE

\* The body of a response in the encoding of the request: [ok, v].
Told(c, ct, body) ==
    LET m == Out[c.r.op] IN
    IF IsJson(c.ct) THEN [ok |-> IsJson(ct) /\ WholeJson(m, body), v |-> DecJson(m, body).v]
    ELSE [ok |-> Binary(ct) /\ DecProto(m, body).ok, v |-> DecProto(m, body).v]

\* code: of the error that the body describes.
ResponseOk(c, status, ct, code, body, t) ==
    CASE ~c.r.ok /\ c.r.why = "route" -> status = 404
      [] ~c.r.ok -> status \in 400..499
      [] status = 200 -> LET w == Told(c, ct, body) IN w.ok /\ ValueOk(c, w.v, t)
      [] status = 400 -> code = "invalid_argument" /\ Refusable(c, t) /\ (c.alone => c.sent = {})
      [] status = 500 -> code = "internal" /\ Failable(c, t)
      [] OTHER -> FALSE

Response(id, status, ct, code, body, t) ==
    LET c == calls[id] IN
    /\ id \in DOMAIN calls
    /\ now' = t
    /\ viol' = viol \cup Need(ResponseOk(c, status, ct, code, body, t) /\ t <= c.t + Bound)
    /\ calls' = Drop(calls, id)
    /\ UNCHANGED <<hist, x, gone>>

\* The connection ends, or nothing comes, before there is a response.
Lost(id, t) ==
    /\ now' = t /\ viol' = viol \cup {"C23"} /\ calls' = Drop(calls, id) /\ UNCHANGED <<hist, x, gone>>

\* The program ends.
Died(t) == now' = t /\ viol' = viol \cup {"C23"} /\ UNCHANGED <<hist, x, gone, calls>>

HEnd(t) ==
    /\ now' = t /\ viol' = viol \cup Need(DOMAIN calls = {}) /\ UNCHANGED <<hist, x, gone, calls>>

NoViolation == viol = {}
=============================================================================
