-------------------------------- MODULE MC_Scan --------------------------------
(***************************************************************************)
(* The scan for the next byte of a string that needs attention, W bytes at a *)
(* time and then byte by byte: what an implementation with packed bytes does  *)
(* instead of the byte-wise steps of JsonParser.                              *)
(*                                                                         *)
(* d is the rest of the document (1 stands for a byte that needs attention:    *)
(* quote, backslash or control character).  When the byte that is read first is  *)
(* the least significant one of a word, a packed comparison is right up to the   *)
(* first lane that needs attention, and what it reports of the lanes above is     *)
(* anything (subtraction borrows from them, see LanesExact).  When it is the most  *)
(* significant one, lanes before one that needs attention may be reported too,     *)
(* so that the byte which was found has to be looked at again (LanesCover).         *)
(*                                                                         *)
(*   Bounded   no byte beyond the end is looked at;                           *)
(*   Skipped   no byte that needs attention is passed over;                    *)
(*   Stopped   the scan ends at the first such byte, or at the end;             *)
(*   Ends      and it does end.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

CONSTANTS MaxLen, MaxWidth

VARIABLES d, w, big, cur, m
vars == <<d, w, big, cur, m>>

Strings(n) == UNION { [1..k -> {0, 1}] : k \in 0..n }
Init == d \in Strings(MaxLen) /\ w \in 1..MaxWidth /\ big \in BOOLEAN /\ cur = 0 /\ m = "scan"

Block == SubSeq(d, cur + 1, cur + w)
True(b) == { i \in 1..w : b[i] = 1 }
Least(s) == CHOOSE i \in s : \A j \in s : i <= j
Greatest(s) == CHOOSE i \in s : \A j \in s : i >= j
\* what a packed comparison may report
Reports(b) == IF True(b) = {} THEN {{}}
              ELSE IF big THEN { True(b) \cup x : x \in SUBSET (1..(Greatest(True(b)) - 1)) }
              ELSE { {Least(True(b))} \cup x : x \in SUBSET ((Least(True(b)) + 1)..w) }

ByBlock == /\ m = "scan" /\ Len(d) - cur >= w
           /\ \E r \in Reports(Block) :
                 IF r = {} THEN cur' = cur + w /\ m' = m
                 ELSE cur' = cur + Least(r) - 1 /\ m' = "look"
           /\ UNCHANGED <<d, w, big>>
Look == /\ m = "look"
        /\ IF d[cur + 1] = 1 THEN m' = "found" /\ cur' = cur ELSE m' = "scan" /\ cur' = cur + 1
        /\ UNCHANGED <<d, w, big>>
ByByte == /\ m = "scan" /\ Len(d) - cur < w
          /\ IF cur = Len(d) THEN m' = "end" /\ cur' = cur
             ELSE IF d[cur + 1] = 1 THEN m' = "found" /\ cur' = cur
             ELSE cur' = cur + 1 /\ m' = m
          /\ UNCHANGED <<d, w, big>>
Next == ByBlock \/ Look \/ ByByte
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bounded == cur <= Len(d)
Skipped == \A i \in 1..cur : d[i] = 0
Stopped == /\ m = "found" => cur < Len(d) /\ d[cur + 1] = 1
           /\ m = "end" => cur = Len(d)
           /\ m = "look" /\ ~big => d[cur + 1] = 1         \* there need be no second look
Ends == <>(m \in {"found", "end"})

(***************************************************************************)
(* Comparisons of all lanes of a word at once, lanes of 4 bits, 3 of them.     *)
(*   less(x, n)  = (x - n * 1..1) & ~x & 8..8         for n <= 8             *)
(*   equal(x, n) = less(x xor n * 1..1, 1)                                   *)
(***************************************************************************)
Lanes == 3
Ones  == 273      \* 0x111
Highs == 2184     \* 0x888
All   == 4095
Lane(x, i) == (x \div (16 ^ (i - 1))) % 16                \* lane 1 is the least significant one
Wrap(x) == IF x < 0 THEN x + All + 1 ELSE x
Less(x, n)  == (Wrap(x - n * Ones) & (All - x)) & Highs
Equal(x, n) == Less(x ^^ (n * Ones), 1)
Seen(y) == { i \in 1..Lanes : Lane(y, i) # 0 }
Exact(y, want) == IF want = {} THEN Seen(y) = {}
                  ELSE Seen(y) # {} /\ Least(Seen(y)) = Least(want)
LanesExact == /\ \A x \in 0..All : \A n \in 0..8  : Exact(Less(x, n), { i \in 1..Lanes : Lane(x, i) < n })
              /\ \A x \in 0..All : \A n \in 0..15 : Exact(Equal(x, n), { i \in 1..Lanes : Lane(x, i) = n })
Cover(y, want) == want \subseteq Seen(y) /\ (Seen(y) = {} \/ Seen(y) \subseteq Least(want)..Lanes)
LanesCover == /\ \A x \in 0..All : \A n \in 0..7  : Cover(Less(x, n), { i \in 1..Lanes : Lane(x, i) < n })
              /\ \A x \in 0..All : \A n \in 0..15 : Cover(Equal(x, n), { i \in 1..Lanes : Lane(x, i) = n })
ASSUME LanesExact /\ LanesCover
===============================================================================
