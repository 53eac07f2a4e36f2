------------------------------- MODULE BootImpl -------------------------------
(***************************************************************************)
(* A model of the program's start: a configuration is put together, then   *)
(* the program takes it apart, connects, asks, serves or ends.  In lock-   *)
(* step it takes Boot's actions.  Flaw chooses a deliberate defect.        *)
(***************************************************************************)
EXTENDS Boot

CONSTANTS
    FlagsOf, EnvsOf,    \* key -> settings to choose from on the command line, in the environment
    Repeats,            \* flags that may be given twice
    Odd,                \* other arguments
    Usb,
    Flaw

VARIABLES pc, todo, order, answered
ivars == <<pc, todo, order, answered>>
vars == <<bvars, ivars>>

KeyOrder == <<"mode", "target", "listen", "debug">>
NoEnv == [i \in {} |-> ""]

Init == Fresh0(<<>>, NoEnv, FALSE) /\ pc = "choose" /\ todo = 1 /\ order = <<>> /\ answered = {}

-----------------------------------------------------------------------------
(* The configuration, key by key *)
Choose ==
    /\ pc = "choose" /\ todo <= 4
    /\ LET k == KeyOrder[todo] IN
       \E f \in FlagsOf[k] \cup {<<>>}, g \in (IF k \in Repeats THEN FlagsOf[k] ELSE {}) \cup {<<>>}, e \in EnvsOf[k] \cup {"-"} :
          /\ flags' = flags \o (IF f = <<>> THEN <<>> ELSE <<f>>) \o (IF f = <<>> \/ g = <<>> THEN <<>> ELSE <<g>>)
          /\ env' = IF e = "-" THEN env ELSE [n \in DOMAIN env \cup {EnvName[k]} |-> IF n = EnvName[k] THEN e ELSE env[n]]
    /\ todo' = todo + 1
    /\ UNCHANGED <<usb, conn, asked, up, code, viol, pc, order, answered>>
More ==
    /\ pc = "choose" /\ todo = 5
    /\ \E o \in Odd \cup {<<>>}, u \in Usb :
         BBegin(IF o = <<>> THEN flags ELSE Append(flags, o), env, u)
    /\ pc' = "parse" /\ UNCHANGED <<todo, order, answered>>

-----------------------------------------------------------------------------
(* The start *)
Own(k) ==
    CASE Flaw = "envfirst" /\ EnvName[k] \in DOMAIN env -> env[EnvName[k]]
      [] Flaw = "noenv" -> Setting(flags, NoEnv, k)
      [] Flaw = "first" /\ Given(flags, k) # {} -> FlagVal(flags[CHOOSE i \in Given(flags, k) : \A j \in Given(flags, k) : i <= j])
      [] Flaw = "default" /\ k = "listen" /\ Setting(flags, env, k) = Defaults.listen -> "@L1"
      [] OTHER -> Setting(flags, env, k)
Target == Own("target")
Opens == \/ Own("mode") = "tcp" /\ Target \in TcpUnits \ (IF Flaw = "old" THEN {"@6"} ELSE {})
         \/ Own("mode") = "serial" /\ Target \in SerialUnits(usb)
         \/ Flaw = "guess" /\ Own("mode") \notin {"tcp", "serial"} /\ Target \in TcpUnits

Parse ==
    /\ pc = "parse"
    /\ IF ~FlagOk(flags) /\ Flaw # "lenient" THEN pc' = "over" /\ Exit(2)
       ELSE pc' = "connect" /\ UNCHANGED bvars
    /\ UNCHANGED <<todo, order, answered>>
Dial ==
    /\ pc = "connect"
    /\ IF Opens THEN pc' = "line" /\ Connect(Target)
       ELSE IF Flaw = "wait" THEN pc' = "over" /\ Stuck
       ELSE IF Flaw = "hide" THEN pc' = "listen" /\ UNCHANGED bvars
       ELSE pc' = "over" /\ Exit(IF Flaw = "zero" THEN 0 ELSE 1)
    /\ UNCHANGED <<todo, order, answered>>
SetLine ==
    /\ pc = "line" /\ pc' = IF Flaw = "early" THEN "listen" ELSE "ask"
    /\ IF Own("mode") = "serial" THEN Line(IF Flaw = "speed" THEN 38400 ELSE 9600) ELSE UNCHANGED bvars
    /\ UNCHANGED <<todo, order, answered>>
\* The unit may or may not answer; start-up goes on either way.
First(ok) ==
    /\ pc = "ask"
    /\ \E ds \in Sets \ {order[i] : i \in DOMAIN order} :
         /\ order' = Append(order, ds) /\ BAsk(Target, CmdOf(ds))
         /\ answered' = IF ok THEN answered \cup {ds} ELSE answered
         /\ pc' = IF Len(order) + 1 = (IF Flaw = "fewer" THEN 5 ELSE 6) \/ (Flaw = "giveup" /\ ~ok) THEN "listen" ELSE "ask"
    /\ UNCHANGED todo
Serve ==
    /\ pc = "listen"
    /\ IF Own("listen") \in Listenable THEN pc' = "serve" /\ Up(Own("listen"))
       ELSE IF Flaw = "mute" THEN pc' = "over" /\ Stuck
       ELSE pc' = "over" /\ Exit(1)
    /\ UNCHANGED <<todo, order, answered>>
Answers ==
    /\ pc = "serve" /\ pc' = "served" /\ Serves(TRUE) /\ UNCHANGED <<todo, order, answered>>
Near ==
    /\ pc = "served" /\ pc' = "over"
    /\ LET at == CHOOSE a \in up : TRUE IN
       Reach(at, {"127.0.0.2", "::1"}, IF Flaw = "narrow" THEN {} ELSE IF Flaw = "four" THEN Open(at, {"127.0.0.2"}) ELSE Open(at, {"127.0.0.2", "::1"}))
    /\ UNCHANGED <<todo, order, answered>>
Look ==
    /\ pc = "over" /\ pc' = "looked"
    /\ Logged(Own("debug") \in Truths) /\ UNCHANGED <<todo, order, answered>>
Finish == pc = "looked" /\ pc' = "end" /\ BEnd /\ UNCHANGED <<todo, order, answered>>

Next == Choose \/ More \/ Parse \/ Dial \/ SetLine \/ First(TRUE) \/ First(FALSE) \/ Serve \/ Answers \/ Near \/ Look \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
