------------------------------- MODULE MCScan -------------------------------
(* All inputs that are a given beginning and a tail over a small alphabet. *)
EXTENDS Scan
CONSTANTS Tail_,     \* length of the tails
          Cmd, Alphabet
VARIABLES s, expect, left
Heads == { <<>>, AckMark, AckMark \o StartMark, AckMark \o StartMark \o <<0, Cmd + 1>> }
         \cup { AckMark \o StartMark \o <<0, Cmd + 1, n>> : n \in 0..4 }
         \cup { AckMark \o StartMark \o <<0, Cmd + 1, 4, ESC>> }
Init == s \in Heads /\ expect \in BOOLEAN /\ left = Tail_
Next == /\ left > 0
        /\ \E b \in Alphabet \cup
             \* the byte that would be the right checksum here
             {Checksum(Cmd + 1, Unescape(SubSeq(s, 8, Len(s))))} : s' = Append(s, b)
        /\ left' = left - 1
        /\ UNCHANGED expect
Agree == ScanAgrees(s, expect, Cmd)
Spec == Init /\ [][Next]_<<s, expect, left>>
=============================================================================
