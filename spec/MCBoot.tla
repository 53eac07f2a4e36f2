-------------------------------- MODULE MCBoot --------------------------------
(***************************************************************************)
(* Boot and BootImpl over a catalogue of configurations.                   *)
(***************************************************************************)
EXTENDS BootImpl, Json

CONSTANT Part      \* which of them

Fl(k, vs, forms) == {<<k, v, f>> : v \in vs, f \in forms}
Modes == {"tcp", "serial", "udp"}
Targets == {"@A", "@B", "@6", "@H", "@P", "@R", "@N", "@F", "/dev/ttyUSB0"}
Listens == {"@L1", "@L2", "@L3", "@L4", "@L5", "@X", "@U", "@Z", "@Y"}

MCFlags ==
    CASE Part = "values" ->
           [mode |-> Fl("mode", Modes, {"eq"}), target |-> Fl("target", Targets, {"eq"}), listen |-> Fl("listen", Listens, {"eq"}),
            debug |-> {<<"debug", "", "bare">>}]
      [] Part = "sources" ->
           [mode |-> Fl("mode", {"tcp"}, {"eq"}), target |-> Fl("target", {"@A", "@B", "@P"}, {"eq"}), listen |-> Fl("listen", {"@L1"}, {"eq"}),
            debug |-> {<<"debug", "false", "eq">>}]
      [] OTHER ->
           [mode |-> Fl("mode", Modes, {"eq", "sp"}), target |-> Fl("target", Targets, {"eq", "sp"}),
            listen |-> Fl("listen", Listens \cup {"[::]:3094"}, {"eq", "sp"}),
            debug |-> {<<"debug", "", "bare">>} \cup Fl("debug", {"true", "false", "1", "0", "T", "F"}, {"eq"})]
MCEnvs ==
    CASE Part = "values" -> [k \in Keys |-> {}]
      [] Part = "sources" -> [mode |-> {"tcp", "serial"}, target |-> {"@A", "@B", "@P"}, listen |-> {"@L2", "@X"}, debug |-> {"true"}]
      [] OTHER -> [mode |-> Modes \cup {""}, target |-> Targets \cup {""}, listen |-> Listens \cup {"", "[::]:3094"},
                   debug |-> {"true", "false", "1", "0", "t", "F", ""}]
MCOdd == IF Part = "values" THEN {<<"--nosuch", "", "raw">>} ELSE IF Part = "sources" THEN {} ELSE {<<"--nosuch", "", "raw">>, <<"-z", "", "raw">>}
MCRepeats == IF Part = "values" THEN {} ELSE {"target", "listen"}
MCUsb == BOOLEAN

\* Which unit answers what, and in which order they were asked, is of no importance.
View == <<flags, env, usb, conn, asked, up, code, viol, pc, todo>>

Emit == (pc = "end") => PrintT("SCN " \o ToJson([flags |-> flags, env |-> env, usb |-> usb]))
=============================================================================
