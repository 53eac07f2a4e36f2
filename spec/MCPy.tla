--------------------------------- MODULE MCPy ---------------------------------
(***************************************************************************)
(* PyClient and PyImpl on small instances.                                 *)
(***************************************************************************)
EXTENDS PyImpl, Json

CONSTANT Part

MCObjects ==
    CASE Part = "one" -> <<[host |-> "h1", given |-> "none", running |-> "B"]>>
      [] Part = "given" -> <<[host |-> "h1", given |-> "A", running |-> "B"], [host |-> "h2", given |-> "A", running |-> "none"]>>
      [] OTHER -> <<[host |-> "h1", given |-> "none", running |-> "A"], [host |-> "h2", given |-> "A", running |-> "B"],
                    [host |-> "h3", given |-> "none", running |-> "none"]>>
Args(m) ==
    CASE m = "set_fan_speed" -> {<<v>> : v \in {-1, 0, 1, 4, 5}}
      [] m = "configure_fan_profile" -> {<<a, b>> : a \in {0, 1, 4, 5}, b \in {-1, 14, 15, 100, 101}}
      [] m = "set_comfort_temperature" -> {<<>>} \cup {<<v>> : v \in {-1, 0, 20, 255, 256}}
      [] OTHER -> {<<>>}
MCCalls ==
    IF Part = "one" THEN UNION {{<<m, a>> : a \in Args(m)} : m \in Methods}
    ELSE IF Part = "given" THEN {<<"get_fans", <<>>>>, <<"set_fan_speed", <<3>>>>, <<"increase_fan_speed", <<>>>>, <<"set_fan_speed", <<9>>>>}
    ELSE {<<"get_temps", <<>>>>, <<"decrease_fan_speed", <<>>>>, <<"configure_fan_profile", <<2, 50>>>>, <<"configure_fan_profile", <<5, 14>>>>}
Errs == {[status |-> 400, code |-> "invalid_argument", body |-> <<>>], [status |-> 500, code |-> "internal", body |-> <<>>],
         [status |-> 0, code |-> "", body |-> <<>>]}
Value1(m) ==
    [f \in Names(m) |->
        LET d == FieldOf(m, f) IN
        CASE d.t \in {"u32", "enum"} -> 10 + d.n [] d.t = "bool" -> TRUE [] d.t = "float" -> 3 * d.n - 9 [] OTHER -> <<65, 195, 169>>]
MCReplies == [op \in Ops |-> Errs \cup {[status |-> 200, code |-> "", body |-> EncProto(Out[op], Value1(Out[op]))],
                                        [status |-> 200, code |-> "", body |-> <<>>]}]

View == <<pvars, own, run, busy, n>>
Emit == (n = MaxCalls /\ run = [i \in {} |-> 0]) => PrintT("SCN " \o ToJson([objects |-> MCObjects, calls |-> trail]))
=============================================================================
