-------------------------------- MODULE MCHttp --------------------------------
(***************************************************************************)
(* Http and HttpImpl on small instances: every request of a catalogue in   *)
(* both encodings, alone and with others; the encodings themselves.        *)
(***************************************************************************)
EXTENDS HttpImpl, Json

CONSTANTS Part          \* which requests

U0 == <<2, 80, 30, 50, 70, 40, 50, 70, 90, 90>>
P(op) == Service \o op
J == "application/json"
B == "application/protobuf"
Both(op, js, b) == {<<"POST", P(op), J, js>>, <<"POST", P(op), B, b>>}
Num(f, v) == <<<<f, "num", v>>>>

ReadReqs == UNION {Both(op, <<>>, <<>>) : op \in DOMAIN ReadOf}
ComfortReqs == UNION {Both("SetComfortTemp", Num("ComfortTemp", v), EncProto("ComfortTarget", [ComfortTemp |-> v])) : v \in {20, 21, 108, 300}}
ProfileReqs == UNION {Both("SetFanProfile", <<<<"Mode", "num", m>>, <<"TargetSpeed", "num", s>>>>,
                           EncProto("FanProfileTarget", [Mode |-> m, TargetSpeed |-> s])) : m \in {1, 2, 5}, s \in {40, 50, 300}}
SpeedReqs == UNION {Both("SetFanSpeed", <<<<"Abs", "num", a>>, <<"Rel", "bool", r>>>>,
                         EncProto("FanSpeedTarget", [Abs |-> a, Rel |-> r])) : a \in {0, 2, 3, 259}, r \in BOOLEAN}
FlushReqs == UNION {Both("FlushCache", <<<<"Cache", "num", v>>>>, EncProto("FlushCacheRequest", [Cache |-> v])) : v \in {1, 2, 7, 10}}
             \cup {<<"POST", P("FlushCache"), J, <<<<"Cache", "name", "Temps">>>>>>}
OddReqs == {<<"GET", P("GetFans"), J, <<>>>>, <<"POST", P("Nope"), J, <<>>>>, <<"POST", "/", B, <<>>>>,
            <<"POST", P("SetFanSpeed"), J, <<<<"Abs", "str", <<120>>>>>>>>, <<"POST", P("SetFanSpeed"), B, <<8>>>>,
            <<"POST", P("GetTemps"), J, <<<<"", "bad", 0>>>>>>,
            <<"POST", P("SetFanSpeed"), B, <<24, 1, 8, 1, 8, 3>>>>,
            <<"POST", P("SetFanSpeed"), J, <<<<"Other", "num", 5>>, <<"Abs", "numstr", 3>>>>>>}
MCRequests ==
    CASE Part = "reads" -> ReadReqs \cup OddReqs
      [] Part = "comfort" -> ComfortReqs \cup Both("GetTemps", <<>>, <<>>)
      [] Part = "profile" -> ProfileReqs
      [] Part = "speed" -> SpeedReqs
      [] Part = "flush" -> FlushReqs
      [] Part = "mixed" -> {r \in ComfortReqs \cup SpeedReqs : r[3] = J /\ r[4] \in {Num("ComfortTemp", 21), <<<<"Abs", "num", 3>>, <<"Rel", "bool", FALSE>>>>}}
                           \cup Both("GetTemps", <<>>, <<>>) \cup Both("FlushCache", Num("Cache", 2), <<8, 2>>)
      [] OTHER -> ReadReqs \cup ComfortReqs \cup ProfileReqs \cup SpeedReqs \cup FlushReqs \cup OddReqs

\* The two encodings agree and lose nothing.
Values(m) ==
    LET vals(t) == CASE t \in {"u32", "enum"} -> {0, 1, 127, 128, 300, 65535, 2097152} [] t = "bool" -> BOOLEAN
                     [] t = "float" -> {-20, -1, 0, 1, 7, 64, 107} [] OTHER -> {<<>>, <<7, 240>>}
        one == {[f \in Names(m) |-> IF f = g THEN v ELSE Default(FieldOf(m, f).t)] : g \in Names(m), v \in {0}}
    IN UNION {{[Empty(m) EXCEPT ![g] = v] : v \in vals(FieldOf(m, g).t)} : g \in Names(m)}
RoundTrip ==
    \A m \in DOMAIN Schema : \A r \in Values(m) :
        /\ DecProto(m, EncProto(m, r)) = [ok |-> TRUE, v |-> r]
        /\ m \notin {"FlushCacheRequest"} => DecJson(m, EncText(m, r)).v = r
ASSUME Flaw = "none" => RoundTrip
ASSUME \A n \in -300..300 : FloatVal(FloatBytes(n)) = n
ASSUME FloatBytes(20) = <<0, 0, 160, 65>> /\ FloatBytes(-5) = <<0, 0, 160, 192>> /\ FloatBytes(1) = <<0, 0, 128, 63>>
ASSUME Varint(300) = <<172, 2>>

View == <<hist, x, gone, viol, uu, fans, sv, job, todo, locks, line, asking, faults,
          [i \in DOMAIN calls |-> calls[i]], now>>

Emit == (\A c \in Clients : job[c].pc = "idle" /\ todo[c] = 0) => PrintT("SCN " \o ToJson(trail))
=============================================================================
