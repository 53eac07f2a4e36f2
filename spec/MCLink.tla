------------------------------- MODULE MCLink -------------------------------
(* Instances of LinkImpl: who calls what, and how the unit may answer. *)
EXTENDS LinkImpl, Json

CONSTANTS Load,    \* which of the loads below
          Quirks   \* the kinds of answers, other than a good one, that the unit gives

Q(cmd, e) == [op |-> "Query", a |-> <<cmd, e, 1>>]
Speed(s) == [op |-> "SetSpeed", a |-> <<s>>]
Profile(m, p) == [op |-> "SetFanProfile", a |-> <<m, p>>]
ProfilesOp == [op |-> "SetFanProfiles", a |-> <<11, 12, 13, 14, 21, 22, 23, 24, 0, 0, 0, 0>>]
GetE == [op |-> "GetErrors", a |-> <<>>]

Loads == [
  solo3   |-> << <<Q(10, 1), Speed(2), Q(10, 1)>> >>,
  solo4   |-> << <<Q(10, 1), Speed(3), Q(20, 1), Q(10, 1)>> >>,
  same4   |-> << <<Q(10, 1), Q(10, 1), Q(10, 1), Q(10, 1)>> >>,
  sets4   |-> << <<Speed(1), Speed(2), Speed(3), Speed(4)>> >>,
  get     |-> << <<GetE, Speed(1)>> >>,
  duo     |-> << <<Q(10, 1), Speed(2)>>, <<Q(20, 1)>> >>,
  duo2    |-> << <<Q(10, 1), Speed(2)>>, <<Q(20, 1), Q(10, 1)>> >>,
  trio    |-> << <<Q(10, 1)>>, <<Q(10, 1)>>, <<Speed(2)>> >>,
  rmw2    |-> << <<Profile(0, 15)>>, <<Profile(3, 80)>> >>,
  rmw3    |-> << <<Profile(0, 15)>>, <<Profile(3, 80)>>, <<ProfilesOp>> >>,
  rmwq    |-> << <<Profile(1, 20), Profile(1, 30)>>, <<Q(10, 1)>>, <<ProfilesOp>> >>
]
MCCallers == 1..Len(Loads[Load])
MCProg(c) == Loads[Load][c]

MCUnit0 == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 41, 42, 0, 0>>

\* The payload of the answer to cmd.
Load1(cmd) == IF cmd = GetCmd["GetErrors"] THEN <<0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 7>> ELSE <<7, cmd>>
Seg(d, b) == [d |-> d, b |-> b, err |-> ""]
Stop(d, e) == [d |-> d, b |-> <<>>, err |-> e]

AllQuirks == <<"quick", "lost", "edge", "late", "verylate", "split", "half", "slow", "junk", "tail",
               "double", "wrong", "bytes", "eof", "err">>

MCAnswers(cmd, expect) ==
    LET g == IF expect THEN Reply(cmd, Load1(cmd)) ELSE AckMark
        k == IF expect THEN 9 ELSE 1
        one == SubSeq(g, 1, k)
        two == SubSeq(g, k + 1, Len(g))
        good == << <<Seg(1, g)>> >>
        Pick(q) ==
          CASE q = "quick"  -> << <<Seg(0, g)>> >>
            [] q = "lost"   -> << <<>> >>
            [] q = "edge"   -> << <<Seg(2, g)>> >>
            [] q = "late"   -> << <<Seg(3, g)>> >>
            [] q = "verylate" -> << <<Seg(5, g)>> >>
            [] q = "split"  -> << <<Seg(0, one), Seg(1, two)>> >>
            [] q = "half"   -> << <<Seg(1, one)>> >>
            [] q = "slow"   -> << <<Seg(1, one), Seg(1, two)>>, <<Seg(1, one), Seg(2, two)>> >>
            [] q = "junk"   -> << <<Seg(0, <<1, 2>>), Seg(0, g)>> >>
            [] q = "tail"   -> << <<Seg(0, g), Seg(0, <<9>>)>>, <<Seg(0, g), Seg(3, <<ESC, ACK>>)>> >>
            [] q = "double" -> << <<Seg(0, g \o g)>>, <<Seg(0, g), Seg(1, g)>> >>
            [] q = "wrong"  -> << <<Seg(0, Reply(cmd + 2, Load1(cmd)))>>, <<Seg(0, StartMark)>> >>
            [] q = "bytes"  -> << [i \in 1..Len(g) |-> Seg(IF i = 3 THEN 1 ELSE 0, <<g[i]>>)] >>
            [] q = "eof"    -> << <<Stop(0, "eof")>>, <<Seg(0, one), Stop(0, "eof")>> >>
            [] q = "err"    -> << <<Stop(0, "err")>>, <<Seg(0, one), Stop(1, "err"), Seg(0, two)>> >>
    IN FoldLeft(LAMBDA acc, q : acc \o Pick(q), good, SelectSeq(AllQuirks, LAMBDA q : q \in Quirks))

\* Print the choices made when a behaviour ends, for replay against the code.
Emit == ended => PrintT("SCN " \o ToJson(hist))

MCGlance == -1

\* hist only records choices.
View == <<lvars, pc, am, pm, pend, inbox, atEof, scan, cut, due, sched, taking, wleft, faulty, unit, eff, ended>>
=============================================================================
