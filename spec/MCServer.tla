------------------------------- MODULE MCServer -------------------------------
(* Checks ServerImpl, and writes behaviours of it for replay. *)
EXTENDS ServerImpl, Json, TLC

CONSTANTS Load

R(op) == [op |-> op, a |-> <<>>]
F(k) == [op |-> "FlushCache", a |-> <<k>>]
S(abs, rel) == [op |-> "SetFanSpeed", a |-> <<abs, rel>>]
P(m, pct) == [op |-> "SetFanProfile", a |-> <<m, pct>>]
C(deg) == [op |-> "SetComfortTemp", a |-> <<deg>>]

MCCallers == CASE Load \in {"read", "flush", "comfort", "profile", "step"} -> {1}
               [] Load \in {"steps3", "mix3", "flush3"} -> {1, 2, 3}
               [] OTHER -> {1, 2}

MCProg ==
    CASE Load = "read" -> (1 :> <<R("GetTemps"), R("GetFanProfiles"), R("GetFans")>>)
      [] Load = "flush" -> (1 :> <<F(2), R("GetTemps"), F(9)>>)
      [] Load = "flush2" -> (1 :> <<F(2), R("GetTemps")>> @@ 2 :> <<F(3), F(2)>>)
      [] Load = "flush3" -> (1 :> <<F(2)>> @@ 2 :> <<F(2)>> @@ 3 :> <<F(10)>>)
      [] Load = "comfort" -> (1 :> <<C(21), R("GetTemps"), C(300), C(21)>>)
      [] Load = "comfort2" -> (1 :> <<C(21), R("GetTemps")>> @@ 2 :> <<C(22), C(21)>>)
      [] Load = "profile" -> (1 :> <<P(1, 40), R("GetFanProfiles"), P(260, 40), P(1, 40)>>)
      [] Load = "profile2" -> (1 :> <<P(1, 40), P(2, 30)>> @@ 2 :> <<P(2, 50), R("GetFanProfiles")>>)
      [] Load = "step" -> (1 :> <<S(0, 1), R("GetFanProfiles"), S(257, 0), S(0, 1)>>)
      [] Load = "steps2" -> (1 :> <<S(0, 1), R("GetFanProfiles")>> @@ 2 :> <<S(0, 1)>>)
      [] Load = "steps3" -> (1 :> <<S(0, 1)>> @@ 2 :> <<S(0, 0)>> @@ 3 :> <<S(3, 0)>>)
      [] Load = "speedflush" -> (1 :> <<S(3, 0), R("GetFanProfiles")>> @@ 2 :> <<F(3), F(1)>>)
      [] Load = "speedprofile" -> (1 :> <<S(3, 0)>> @@ 2 :> <<P(3, 30), R("GetFans")>>)
      [] Load = "comfortflush" -> (1 :> <<C(21), R("GetTemps")>> @@ 2 :> <<F(2), C(20)>>)
      [] Load = "speedread" -> (1 :> <<S(0, 1), S(0, 1)>> @@ 2 :> <<R("GetFanProfiles"), R("GetFans"), R("GetFanProfiles")>>)
      [] Load = "mix3" -> (1 :> <<S(0, 1)>> @@ 2 :> <<C(22)>> @@ 3 :> <<F(2)>>)
      [] OTHER -> (1 :> <<>> @@ 2 :> <<>>)

Even == <<2, 80, 50, 50, 50, 50, 50, 50, 50, 50>>
Uneven == <<2, 80, 30, 50, 70, 30, 70, 70, 90, 90>>
MCUnit0 == <<2, 80, 30, 50, 70, 30, 50, 70, 90, 90>>
Lopsided == <<2, 80, 30, 50, 70, 40, 50, 70, 90, 90>>
Theirs == {<<1, 84, 30, 50, 70, 30, 50, 70, 90, 90>>}

View == <<svars, pc, loc, sub, fan, temp, cl, link, cache, stamp, tick, shown, rampT, n, faulty, last0>>

\* Simulation: a behaviour is written at its end.
Emit == pc[0] = "over" => PrintT("SCN " \o ToJson(h))
SimSpec == Init /\ [][Next]_vars
=============================================================================
