--------------------------------- MODULE Boot ---------------------------------
(***************************************************************************)
(* How the program comes up: where its configuration comes from, which     *)
(* unit it connects to and how, what it asks the unit before it serves,    *)
(* where it serves, and when it ends instead.                              *)
(*                                                                         *)
(* Addresses and devices are symbolic: units listen at @A and @B (TCP), @6 *)
(* (TCP, IPv6), @H (TCP, by name), @P and, where there is one,             *)
(* /dev/ttyUSB0 (serial); @R refuses connections, @N does not exist, @F is *)
(* a plain file.  @L1 (one address), @L2 ([::]), @L3 (::1), @L4 (no        *)
(* address), @L5 (0.0.0.0) and the default can be listened at; @X is in    *)
(* use, @U is not this host's, @Z and @Y are no addresses.                 *)
(***************************************************************************)
EXTENDS Api


VARIABLES
    flags,     \* command line: sequence of <<name, value, form>>
    env,       \* environment: name -> value
    usb,       \* there is a unit at /dev/ttyUSB0
    conn,      \* units that a connection was made to
    asked,     \* data sets asked for
    up,        \* addresses at which it serves
    code,      \* exit status, -1 while it runs
    viol
bvars == <<flags, env, usb, conn, asked, up, code, viol>>

Keys == {"mode", "target", "listen", "debug"}
Defaults == [mode |-> "serial", target |-> "/dev/ttyUSB0", listen |-> "[::]:3094", debug |-> "false"]
EnvName == [mode |-> "COMFO_MODE", target |-> "COMFO_TARGET", listen |-> "COMFO_LISTEN", debug |-> "COMFO_DEBUG"]

Truths == {"1", "t", "T", "true", "TRUE", "True"}
Falsehoods == {"0", "f", "F", "false", "FALSE", "False"}

\* The command line is one that the program has to understand.
FlagOk(fs) == \A i \in DOMAIN fs : fs[i][1] \in Keys /\ (fs[i][1] = "debug" => fs[i][3] = "bare" \/ fs[i][2] \in Truths \cup Falsehoods)

\* A setting: from the command line (the last one given), else from the environment, else the default.
Given(fs, k) == {i \in DOMAIN fs : fs[i][1] = k}
FlagVal(f) == IF f[3] = "bare" THEN "true" ELSE f[2]
Setting(fs, e, k) ==
    IF Given(fs, k) # {} THEN FlagVal(fs[CHOOSE i \in Given(fs, k) : \A j \in Given(fs, k) : j <= i])
    ELSE IF EnvName[k] \in DOMAIN e /\ e[EnvName[k]] # "" THEN e[EnvName[k]]
    ELSE Defaults[k]

TcpUnits == {"@A", "@B", "@6", "@H"}
SerialUnits(u) == {"@P"} \cup (IF u THEN {"/dev/ttyUSB0"} ELSE {})
Listenable == {"@L1", "@L2", "@L3", "@L4", "@L5", "[::]:3094"}

Reachable(fs, e, u) ==
    \/ Setting(fs, e, "mode") = "tcp" /\ Setting(fs, e, "target") \in TcpUnits
    \/ Setting(fs, e, "mode") = "serial" /\ Setting(fs, e, "target") \in SerialUnits(u)
Usable(fs, e) == Setting(fs, e, "listen") \in Listenable
Fit(fs, e, u) == FlagOk(fs) /\ Reachable(fs, e, u) /\ Usable(fs, e)

Need(cond) == IF cond THEN {} ELSE {"C24"}

Fresh0(fs, e, u) == flags = fs /\ env = e /\ usb = u /\ conn = {} /\ asked = {} /\ up = {} /\ code = -1 /\ viol = {}
BBegin(fs, e, u) ==
    /\ flags' = fs /\ env' = e /\ usb' = u /\ conn' = {} /\ asked' = {} /\ up' = {} /\ code' = -1 /\ viol' = {}

\* A connection to the unit at the given place: it must be the configured one.
Connect(at) ==
    /\ conn' = conn \cup {at}
    /\ viol' = viol \cup Need(code = -1 /\ FlagOk(flags) /\ Reachable(flags, env, usb) /\ at = Setting(flags, env, "target"))
    /\ UNCHANGED <<flags, env, usb, asked, up, code>>

\* The serial line's speed.
Line(speed) ==
    /\ viol' = viol \cup Need(speed = 9600)
    /\ UNCHANGED <<flags, env, usb, conn, asked, up, code>>

\* The unit is asked for a data set, which it answers or not.
BAsk(at, cmd) ==
    /\ asked' = asked \cup {SetOf(cmd)}
    /\ viol' = viol \cup Need(at \in conn)
    /\ UNCHANGED <<flags, env, usb, conn, up, code>>

\* It serves, only now.
Up(at) ==
    /\ up' = up \cup {at}
    /\ viol' = viol \cup Need(FlagOk(flags) /\ at = Setting(flags, env, "listen") /\ Setting(flags, env, "target") \in conn
                              /\ Sets \subseteq asked /\ code = -1)
    /\ UNCHANGED <<flags, env, usb, conn, asked, code>>
\* Requests are answered there.
Serves(ok) ==
    /\ viol' = viol \cup Need(ok)
    /\ UNCHANGED <<flags, env, usb, conn, asked, up, code>>

\* The addresses of this host at which it can be reached as well, of those that there are: all of
\* them if it serves at the unspecified address, those of IPv4 at least if it is that of IPv4 (Go listens
\* for both then), else none.
Open(at, could) == CASE at \in {"@L2", "@L4", "[::]:3094"} -> could [] at = "@L5" -> could \ {"::1"} [] OTHER -> {}
Reach(at, could, from) ==
    /\ viol' = viol \cup Need(Open(at, could) \subseteq from /\ (at # "@L5" => from = Open(at, could)))
    /\ UNCHANGED <<flags, env, usb, conn, asked, up, code>>

\* It ends of itself.
Exit(c) ==
    /\ code' = c
    /\ viol' = viol \cup Need(~Fit(flags, env, usb) /\ c # 0 /\ up = {})
    /\ UNCHANGED <<flags, env, usb, conn, asked, up>>

\* It neither serves nor ends.
Stuck == viol' = viol \cup {"C24"} /\ UNCHANGED <<flags, env, usb, conn, asked, up, code>>

\* What its output showed at the end: whether there was debug output.
Logged(debug) ==
    /\ viol' = viol \cup Need(up # {} => (debug <=> Setting(flags, env, "debug") \in Truths))
    /\ UNCHANGED <<flags, env, usb, conn, asked, up, code>>

BEnd ==
    /\ viol' = viol \cup Need(IF Fit(flags, env, usb) THEN up # {} /\ code = -1 ELSE up = {} /\ code > 0)
    /\ UNCHANGED <<flags, env, usb, conn, asked, up, code>>

NoViolation == viol = {}
=============================================================================
