--------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* What the remote operations mean in terms of the unit: data sets, the    *)
(* unit's settings, which arguments are accepted and what they ask for.    *)
(* Pure operators, shared by Server (the operations) and Http (how they    *)
(* are carried).                                                           *)
(***************************************************************************)
EXTENDS Wire

(* Data sets *)

Sets == {"boot", "bypass", "temps", "fans", "profiles", "errors"}
FetchOp == [boot |-> "GetBootloader", bypass |-> "GetBypass", temps |-> "GetTemperatures",
            fans |-> "GetFans", profiles |-> "GetFanProfiles", errors |-> "GetErrors"]
CmdOf(ds) == GetCmd[FetchOp[ds]]
SetOf(cmd) == IF \E ds \in Sets : CmdOf(ds) = cmd THEN CHOOSE ds \in Sets : CmdOf(ds) = cmd ELSE "none"
ReadOf == [GetBootInfo |-> "boot", GetBypass |-> "bypass", GetTemps |-> "temps",
           GetFans |-> "fans", GetFanProfiles |-> "profiles", GetErrors |-> "errors"]
IsRead(op) == op \in DOMAIN ReadOf

\* What a flush request names.
Named(k) == CASE k = 0 -> {"boot"} [] k = 1 -> {"fans"} [] k = 2 -> {"temps"}
              [] k = 3 -> {"profiles"} [] k = 4 -> {"bypass"} [] k = 10 -> Sets [] OTHER -> {}

\* The value served for payload p, zero if there was none yet.
Value(ds, p) == IF p = <<>> THEN ZeroOf(FetchOp[ds]) ELSE Decode(FetchOp[ds], p)

-----------------------------------------------------------------------------
(* The unit's settings: speed, comfort byte, eight duties as in a profile  *)
(* request.                                                                *)
SpeedIn(s) == s[1]
ComfortIn(s) == Degrees(s[2])
\* Duties of profile m (1..4): supply and exhaust.
DutiesIn(s, m) == CASE m = 1 -> <<s[6], s[3]>> [] m = 2 -> <<s[7], s[4]>>
                    [] m = 3 -> <<s[8], s[5]>> [] m = 4 -> <<s[10], s[9]>>

\* The same from the profile data set.
Duties(v, m) == CASE m = 1 -> <<v.InAway, v.OutAway>> [] m = 2 -> <<v.InLow, v.OutLow>>
                  [] m = 3 -> <<v.InMid, v.OutMid>> [] m = 4 -> <<v.InHigh, v.OutHigh>>

-----------------------------------------------------------------------------
(* Changes *)

IsChange(op) == op \in {"SetFanSpeed", "SetFanProfile", "SetComfortTemp"}
Class(op) == CASE op \in {"SetFanSpeed", "SetFanProfile"} -> "fan"
               [] op = "SetComfortTemp" -> "temp"
               [] OTHER -> "none"

\* The speed that request a asks for when the current one is o; 0 if it is to be refused.
SpeedTarget(a, o) ==
    LET s == IF a[1] # 0 THEN (IF a[2] = 1 THEN 0 ELSE a[1]) ELSE IF a[2] = 1 THEN o + 1 ELSE o - 1
    IN IF s \in 1..4 THEN s ELSE 0

ProfileArgsOk(a) == a[1] \in 1..4 /\ a[2] \in 15..100
=============================================================================
