-------------------------------- MODULE Proto --------------------------------
(***************************************************************************)
(* The published messages of the remote interface and their two encodings: *)
(* protobuf's binary form, byte by byte, and JSON, as a sequence of        *)
(* members <<name, kind, value>>.  Pure operators.                         *)
(*                                                                         *)
(* Numbers of 31 bits are written as such; Huge stands for every number    *)
(* from 2^31 - 1 on that still fits 32 bits.  Texts are sequences of bytes.*)
(***************************************************************************)
EXTENDS Wire

F(n, f, t) == [n |-> n, f |-> f, t |-> t]

Modified == <<F(1, "Modified", "bool"), F(2, "OriginalSpeed", "u32"), F(3, "TargetSpeed", "u32"), F(4, "ReqTime", "str")>>

Schema ==
    [Noop |-> <<>>,
     Bypass |-> <<F(1, "Factor", "u32"), F(2, "Level", "u32"), F(3, "Correction", "u32"), F(4, "SummerMode", "bool")>>,
     BootInfo |-> <<F(1, "MajorVersion", "u32"), F(2, "MinorVersion", "u32"), F(3, "BetaVersion", "u32"), F(4, "DeviceName", "str")>>,
     ComfortTarget |-> <<F(1, "ComfortTemp", "u32")>>,
     ComfortModified |-> <<F(1, "Modified", "bool"), F(2, "OriginalTemp", "u32"), F(3, "TargetTemp", "u32"), F(4, "ReqTime", "str")>>,
     Errors |-> <<F(1, "Filter", "bool")>>,
     Fans |-> <<F(1, "InPercent", "u32"), F(2, "OutPercent", "u32"), F(3, "InSpeed", "u32"), F(4, "OutSpeed", "u32")>>,
     FanProfiles |-> <<F(1, "OutAway", "u32"), F(2, "OutLow", "u32"), F(3, "OutMid", "u32"), F(4, "OutHigh", "u32"),
                       F(5, "InFanActive", "bool"), F(6, "InAway", "u32"), F(7, "InLow", "u32"), F(8, "InMid", "u32"), F(9, "InHigh", "u32"),
                       F(10, "CurrentOut", "u32"), F(11, "CurrentIn", "u32"), F(12, "CurrentMode", "u32")>>,
     FanProfileTarget |-> <<F(1, "Mode", "u32"), F(2, "TargetSpeed", "u32")>>,
     FanProfileModified |-> Modified,
     FanSpeedTarget |-> <<F(1, "Abs", "u32"), F(2, "Rel", "bool")>>,
     FanSpeedModified |-> Modified,
     Temps |-> <<F(1, "Comfort", "float"), F(2, "OutsideAir", "float"), F(3, "SupplyAir", "float"), F(4, "InsideAir", "float"),
                 F(5, "ExhaustAir", "float"), F(6, "GeoHeat", "float"), F(7, "Reheating", "float"), F(8, "KitchenHood", "float")>>,
     FlushCacheRequest |-> <<F(1, "Cache", "enum")>>,
     FlushCacheResponse |-> <<F(1, "Success", "bool"), F(2, "ReqTime", "str")>>]

CacheNames == [BootInfo |-> 0, Fans |-> 1, Temps |-> 2, Profiles |-> 3, Bypass |-> 4, All |-> 10]

Service == "/twirp/comfo.api.Comfo/"
In == [GetBootInfo |-> "Noop", GetTemps |-> "Noop", GetBypass |-> "Noop", GetFans |-> "Noop", GetFanProfiles |-> "Noop",
       GetErrors |-> "Noop", SetFanSpeed |-> "FanSpeedTarget", SetComfortTemp |-> "ComfortTarget",
       SetFanProfile |-> "FanProfileTarget", FlushCache |-> "FlushCacheRequest"]
Out == [GetBootInfo |-> "BootInfo", GetTemps |-> "Temps", GetBypass |-> "Bypass", GetFans |-> "Fans",
        GetFanProfiles |-> "FanProfiles", GetErrors |-> "Errors", SetFanSpeed |-> "FanSpeedModified",
        SetComfortTemp |-> "ComfortModified", SetFanProfile |-> "FanProfileModified", FlushCache |-> "FlushCacheResponse"]
Ops == DOMAIN In
OpAt(path) == IF \E o \in Ops : Service \o o = path THEN CHOOSE o \in Ops : Service \o o = path ELSE "none"

Huge == 2147483647
Names(m) == {Schema[m][i].f : i \in DOMAIN Schema[m]}
FieldOf(m, f) == Schema[m][CHOOSE i \in DOMAIN Schema[m] : Schema[m][i].f = f]
Default(t) == CASE t \in {"u32", "enum", "float"} -> 0 [] t = "bool" -> FALSE [] OTHER -> <<>>
Empty(m) == [f \in Names(m) |-> Default(FieldOf(m, f).t)]

-----------------------------------------------------------------------------
(* Single precision numbers, of whole numbers that are small *)

RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
Pow2(k) == 2 ^ k
FloatBytes(n) ==
    IF n = 0 THEN <<0, 0, 0, 0>>
    ELSE LET a == IF n < 0 THEN -n ELSE n
             e == Log2(a)
             m == (a - Pow2(e)) * Pow2(23 - e)
             x == 127 + e
         IN <<m % 256, (m \div 256) % 256, (m \div 65536) + (x % 2) * 128, (x \div 2) + (IF n < 0 THEN 128 ELSE 0)>>
Odd == -1000000     \* not a whole number of the range
FloatVal(b) == IF \E n \in -300..300 : FloatBytes(n) = b THEN CHOOSE n \in -300..300 : FloatBytes(n) = b ELSE Odd

-----------------------------------------------------------------------------
(* Binary form *)

RECURSIVE Varint(_)
Varint(v) == IF v < 128 THEN <<v>> ELSE <<(v % 128) + 128>> \o Varint(v \div 128)
WireType(t) == CASE t \in {"u32", "bool", "enum"} -> 0 [] t = "float" -> 5 [] OTHER -> 2
EncField(d, v) ==
    IF v = Default(d.t) THEN <<>>
    ELSE <<d.n * 8 + WireType(d.t)>> \o
         (CASE d.t \in {"u32", "enum"} -> Varint(v)
            [] d.t = "bool" -> <<1>>
            [] d.t = "float" -> FloatBytes(v)
            [] OTHER -> Varint(Len(v)) \o v)
\* The canonical form: fields in order, defaults left out.
EncProto(m, r) == FoldLeft(LAMBDA a, d : a \o EncField(d, r[d.f]), <<>>, Schema[m])

\* Number of bytes of the varint at i; 0 if there is none.
RECURSIVE VarLen(_, _, _)
VarLen(b, i, n) == IF i > Len(b) \/ n = 10 THEN 0 ELSE IF b[i] < 128 THEN n + 1 ELSE VarLen(b, i + 1, n + 1)
\* Its groups of seven bits; its low 32 bits.
Group(b, i, n, k) == IF k > n THEN 0 ELSE b[i + k - 1] % 128
VarVal(b, i, n) ==
    LET g(k) == Group(b, i, n, k) IN
    IF (g(5) % 16) >= 8 THEN Huge
    ELSE ((((g(5) % 16) * 128 + g(4)) * 128 + g(3)) * 128 + g(2)) * 128 + g(1)
VarZero(b, i, n) == \A k \in 1..n : b[i + k - 1] % 128 = 0

\* The fields from byte i on: [ok, fs], fs a sequence of [n, w, v], v the value (groups
\* of bytes for w = 2 and 5).
RECURSIVE Parse(_, _, _)
Parse(b, i, fs) ==
    IF i > Len(b) THEN [ok |-> TRUE, fs |-> fs]
    ELSE LET kn == VarLen(b, i, 0)
             key == VarVal(b, i, kn)
             w == key % 8
             n == key \div 8
             j == i + kn
             vn == VarLen(b, j, 0)
             no == [ok |-> FALSE, fs |-> <<>>]
         IN IF kn = 0 \/ n = 0 \/ key = Huge THEN no
            ELSE CASE w = 0 -> IF vn = 0 THEN no
                               ELSE Parse(b, j + vn, Append(fs, [n |-> n, w |-> 0, v |-> VarVal(b, j, vn), z |-> VarZero(b, j, vn)]))
                   [] w = 5 -> IF j + 3 > Len(b) THEN no
                               ELSE Parse(b, j + 4, Append(fs, [n |-> n, w |-> 5, v |-> SubSeq(b, j, j + 3), z |-> FALSE]))
                   [] w = 1 -> IF j + 7 > Len(b) THEN no
                               ELSE Parse(b, j + 8, Append(fs, [n |-> n, w |-> 1, v |-> <<>>, z |-> FALSE]))
                   [] w = 2 -> IF vn = 0 \/ VarVal(b, j, vn) > Len(b) THEN no
                               ELSE LET e == j + vn + VarVal(b, j, vn) - 1
                                    IN IF e > Len(b) THEN no
                                       ELSE Parse(b, e + 1, Append(fs, [n |-> n, w |-> 2, v |-> SubSeq(b, j + vn, e), z |-> FALSE]))
                   [] OTHER -> no

Meaning(t, f) == CASE t \in {"u32", "enum"} -> f.v [] t = "bool" -> ~f.z [] t = "float" -> FloatVal(f.v) [] OTHER -> f.v

\* Message m from bytes b: [ok, v].  The last of several occurrences counts, unknown
\* fields do not.
DecProto(m, b) ==
    LET p == Parse(b, 1, <<>>)
        at(d) == {i \in DOMAIN p.fs : p.fs[i].n = d.n /\ p.fs[i].w = WireType(d.t)}
        val(d) == IF at(d) = {} THEN Default(d.t)
                  ELSE Meaning(d.t, p.fs[CHOOSE i \in at(d) : \A j \in at(d) : j <= i])
    IN [ok |-> p.ok, v |-> [f \in Names(m) |-> val(FieldOf(m, f))]]

-----------------------------------------------------------------------------
(* JSON.  Kinds: "num" with a whole number of 31 bits or Huge, "neg", "over", "frac" (other     *)
(* numbers), "numstr" (a text that is such a number), "str" with bytes, "bool", "null",        *)
(* "other" (a list or an object), "bad" (the text is not JSON, or not an object).  Enumerations may be given by "name".                                              *)
EncJson(m, r) ==
    [i \in DOMAIN Schema[m] |->
        LET d == Schema[m][i] IN
        <<d.f, CASE d.t \in {"u32", "float"} -> "num" [] d.t = "bool" -> "bool" [] d.t = "enum" -> "name" [] OTHER -> "str", r[d.f]>>]

Fits(t, x) ==
    CASE x[2] = "null" -> TRUE
      [] t = "u32" -> x[2] \in {"num", "numstr"}
      [] t = "float" -> x[2] \in {"num", "numstr", "neg", "frac"}
      [] t = "bool" -> x[2] = "bool"
      [] t = "enum" -> x[2] = "num" \/ (x[2] = "name" /\ x[3] \in DOMAIN CacheNames)
      [] OTHER -> x[2] = "str"
OfJson(t, x) == CASE x[2] = "null" -> Default(t) [] x[2] = "name" -> CacheNames[x[3]] [] OTHER -> x[3]

\* Message m from members js: [ok, v].  Unknown members do not count.
DecJson(m, js) ==
    LET at(f) == {i \in DOMAIN js : js[i][1] = f} IN
    IF \/ \E i \in DOMAIN js : js[i][1] \in Names(m) /\ ~Fits(FieldOf(m, js[i][1]).t, js[i])
       \/ \E f \in Names(m) : Cardinality(at(f)) > 1
    THEN [ok |-> FALSE, v |-> Empty(m)]
    ELSE [ok |-> TRUE,
          v |-> [f \in Names(m) |-> IF at(f) = {} THEN Default(FieldOf(m, f).t)
                                     ELSE OfJson(FieldOf(m, f).t, js[CHOOSE i \in at(f) : TRUE])]]

\* A response: every field is there, once, under its name, in its kind.
WholeJson(m, js) ==
    /\ \A f \in Names(m) : Cardinality({i \in DOMAIN js : js[i][1] = f}) = 1
    /\ \A i \in DOMAIN js : js[i][1] \in Names(m) =>
          LET t == FieldOf(m, js[i][1]).t IN
          CASE t = "u32" -> js[i][2] = "num"
            [] t = "float" -> js[i][2] \in {"num", "neg"}
            [] t = "bool" -> js[i][2] = "bool"
            [] OTHER -> js[i][2] = "str"
=============================================================================
