------------------------------ MODULE LenScan ------------------------------
(***************************************************************************)
(* A scan that is told a length: memory of which the first n units belong  *)
(* to the caller's string, and a cursor that reads them one by one.  Units *)
(* beyond n may hold anything; the scan must not even look.                *)
(***************************************************************************)
EXTENDS Codec

CONSTANTS Bytes, MemLen

VARIABLES mem, n, i,            \* memory, the length given, units read
          m,                    \* the machine
          res                   \* "run", or the answer: isUtf8's and unicodeLength's
vars == <<mem, n, i, m, res>>

Init == /\ mem \in [1..MemLen -> Bytes] /\ n \in 1..MemLen /\ i = 0 /\ m = Fresh /\ res = <<"run">>

\* a NUL ends the scan: true in first place, otherwise false (inside of a sequence: unspecified, here false)
AtNul == i < n /\ mem[i + 1] = 0 /\ res = <<"run">> /\ i' = i + 1 /\ res' = <<"done", i = 0, 0>> /\ UNCHANGED <<mem, n, m>>
Read  == /\ i < n /\ mem[i + 1] # 0 /\ res = <<"run">> /\ i' = i + 1
         /\ m' = Feed(Trans8, m, mem[i + 1])
         /\ res' = IF m'.q = Broken THEN <<"done", FALSE, 0>> ELSE res
         /\ UNCHANGED <<mem, n>>
End   == /\ i = n /\ res = <<"run">>
         /\ res' = <<"done", TRUE, IF AllInRange(kUnicode, AllOf(m.cps)) THEN Len(AllOf(m.cps)) ELSE 0>>
         /\ UNCHANGED <<mem, n, i, m>>
Next == AtNul \/ Read \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

StaysInside == i <= n
AnswersAsSpecified == res # <<"run">> => res[2] \in IsUtf8N(mem, n, NoCheck) /\ res[3] \in UnicodeLength8N(mem, n)
\* whatever lies behind the string, the allowed answers are the same
Blind == i = 0 => \A b \in Bytes, k \in n + 1 .. MemLen :
            /\ IsUtf8N([mem EXCEPT ![k] = b], n, NoCheck) = IsUtf8N(mem, n, NoCheck)
            /\ UnicodeLength8N([mem EXCEPT ![k] = b], n) = UnicodeLength8N(mem, n)
\* and they are those of the string of exactly these units
AsTheString == (i = 0 /\ ~HasNul(First(mem, n))) =>
    /\ IsUtf8(First(mem, n), kUtf8) \in IsUtf8N(mem, n, NoCheck)
    /\ UnicodeLength8(First(mem, n)) \in UnicodeLength8N(mem, n)
Ends == <>(res # <<"run">>)
=============================================================================
