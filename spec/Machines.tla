------------------------------ MODULE Machines ------------------------------
(***************************************************************************)
(* The decoders of ansak-string as deterministic machines that consume one *)
(* code unit at a time.                                                    *)
(*                                                                         *)
(* A machine state is a control state <<kind, need>> plus one integer      *)
(* register.  A transition on unit u is a record                           *)
(*     [to, mul, add, emit]                                                *)
(* meaning  register' = mul * register + (u + add);  with emit, register'  *)
(* is the next decoded code point and the machine is back at its start.    *)
(* Broken is the absorbing error state.  The terminator (unit 0) is not a  *)
(* transition: where it comes decides between "ok" (at the start state),   *)
(* "cut" (inside of a sequence) and "bad" (Broken).                        *)
(*                                                                         *)
(* The same tables are printed by Export.tla for the C++ lockstep walker,  *)
(* so there is one definition of each machine.                             *)
(*                                                                         *)
(* TLC integers have 32 bits: 32-bit units of 2^31 and more are            *)
(* represented by their value minus 2^32.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Start   == <<"start", 0>>
Broken  == <<"broken", 0>>

Go(kind, need, mul, add) == [to |-> <<kind, need>>, mul |-> mul, add |-> add, emit |-> FALSE]
Emit(mul, add)           == [to |-> Start, mul |-> mul, add |-> add, emit |-> TRUE]
Fail                     == [to |-> Broken, mul |-> 0, add |-> 0, emit |-> FALSE]

IsCont(b) == b \in 128..191

(***************************************************************************)
(* UTF-8 as the library understands it: 1 to 6 bytes, shortest form, and   *)
(* surrogate pairs spelled as two 3-byte sequences.                        *)
(*   plain  n   n more continuation bytes complete a code point            *)
(*   doomed n   n more continuation bytes complete something invalid       *)
(*              (over-long, orphaned low half): not known to be broken     *)
(*              for as long as the terminator may still cut it off         *)
(*   e0 ed f0 f8 fc   the first continuation byte will decide              *)
(*   hi 1       inside of a high half                                      *)
(*   mid 3      high half complete, low half to come                       *)
(*   midED 2, midLo 1   inside of the low half                             *)
(***************************************************************************)
Lead8(b) ==
    CASE b \in 1..127    -> Emit(0, 0)
      [] b \in 192..193  -> Go("doomed", 1, 0, 0)
      [] b \in 194..223  -> Go("plain", 1, 0, -192)
      [] b = 224         -> Go("e0", 2, 0, -224)
      [] b = 237         -> Go("ed", 2, 0, -224)
      [] b \in (225..239) \ {237} -> Go("plain", 2, 0, -224)
      [] b = 240         -> Go("f0", 3, 0, -240)
      [] b \in 241..247  -> Go("plain", 3, 0, -240)
      [] b = 248         -> Go("f8", 4, 0, -248)
      [] b \in 249..251  -> Go("plain", 4, 0, -248)
      [] b = 252         -> Go("fc", 5, 0, -252)
      [] b = 253         -> Go("plain", 5, 0, -252)
      [] OTHER           -> Fail

\* first continuation byte after a lead that allows over-long forms below `lim`
Deciding(need, lim, b) ==
    IF b < lim THEN Go("doomed", need - 1, 0, 0) ELSE Go("plain", need - 1, 64, -128)

PairBias == 65536 - 55296 * 1024        \* 0x10000 - 0xD800 * 0x400

Trans8(q, b) ==
    LET kind == q[1]  need == q[2] IN
    IF kind = "start" THEN Lead8(b)
    ELSE IF kind = "broken" THEN Fail
    ELSE IF kind = "mid" THEN
        CASE b = 237        -> Go("midED", 2, 1, -237)
          [] b \in (224..239) \ {237} -> Go("doomed", 2, 0, 0)
          [] OTHER          -> Fail
    ELSE IF ~IsCont(b) THEN Fail
    ELSE CASE kind = "plain"  -> IF need = 1 THEN Emit(64, -128) ELSE Go("plain", need - 1, 64, -128)
           [] kind = "doomed" -> IF need = 1 THEN Fail ELSE Go("doomed", need - 1, 0, 0)
           [] kind = "e0"     -> Deciding(need, 160, b)
           [] kind = "f0"     -> Deciding(need, 144, b)
           [] kind = "f8"     -> Deciding(need, 136, b)
           [] kind = "fc"     -> Deciding(need, 132, b)
           [] kind = "ed"     -> CASE b < 160 -> Go("plain", 1, 64, -128)
                                   [] b \in 160..175 -> Go("hi", 1, 64, -128)
                                   [] OTHER -> Go("doomed", 1, 0, 0)
           [] kind = "hi"     -> Go("mid", 3, 64, -128)
           [] kind = "midED"  -> IF b < 176 THEN Go("doomed", 1, 0, 0) ELSE Go("midLo", 1, 16, -176)
           [] kind = "midLo"  -> Emit(64, PairBias - 128)

Q8 == {Start, Broken, <<"e0",2>>, <<"ed",2>>, <<"f0",3>>, <<"f8",4>>, <<"fc",5>>,
       <<"hi",1>>, <<"mid",3>>, <<"midED",2>>, <<"midLo",1>>}
      \cup {<<"plain", n>> : n \in 1..5} \cup {<<"doomed", n>> : n \in 1..4}

T8 == [q \in Q8 |-> [b \in 1..255 |-> Trans8(q, b)]]

(***************************************************************************)
(* UTF-16, UCS-2, UCS-4                                                    *)
(***************************************************************************)
IsHigh(u) == u \in 55296..56319         \* D800..DBFF
IsLow(u)  == u \in 56320..57343         \* DC00..DFFF
IsSurrogate(u) == u \in 55296..57343

Trans16(q, u) ==
    IF q[1] = "broken" THEN Fail
    ELSE IF q[1] = "start" THEN
        IF IsHigh(u) THEN Go("high", 1, 0, -55296)
        ELSE IF IsLow(u) THEN Fail ELSE Emit(0, 0)
    ELSE IF IsLow(u) THEN Emit(1024, 65536 - 56320) ELSE Fail

Q16 == {Start, Broken, <<"high", 1>>}

\* UCS-2 and UCS-4: one unit, one code point
TransFlat(q, u) == IF q[1] = "broken" \/ IsSurrogate(u) THEN Fail ELSE Emit(0, 0)
QFlat == {Start, Broken}

(***************************************************************************)
(* Whole strings.  The result of a scan:                                   *)
(*   st   "ok", "cut" or "bad"                                             *)
(*   cps  the complete code points (all before the first broken unit)      *)
(*   used the number of units the complete ones take                       *)
(***************************************************************************)
\* sequences that grow, in blocks (appending one by one to a long sequence would take TLC quadratic time)
BlockSize == 512
SmallBlock == 2          \* for models, whose strings are short
NoUnits == [blocks |-> <<>>, cur |-> <<>>]
Put(a, xs) == LET c == a.cur \o xs
              IN  IF Len(c) < BlockSize THEN [a EXCEPT !.cur = c]
                  ELSE [blocks |-> Append(a.blocks, SubSeq(c, 1, BlockSize)), cur |-> SubSeq(c, BlockSize + 1, Len(c))]
AllOf(a) == IF a.blocks = <<>> THEN a.cur
            ELSE LET n == BlockSize * Len(a.blocks)
                 IN  [i \in 1..(n + Len(a.cur)) |->
                        IF i > n THEN a.cur[i - n] ELSE a.blocks[((i - 1) \div BlockSize) + 1][((i - 1) % BlockSize) + 1]]

Feed(T(_,_), s, u) ==
    LET t == T(s.q, u)
        r == t.mul * s.acc + (u + t.add)
    IN  IF t.to = Broken THEN [s EXCEPT !.q = Broken, !.n = @ + 1]
        ELSE IF t.emit
        THEN [q |-> Start, acc |-> 0, cps |-> Put(s.cps, <<r>>), used |-> s.n + 1, n |-> s.n + 1]
        ELSE [q |-> t.to, acc |-> r, cps |-> s.cps, used |-> s.used, n |-> s.n + 1]

Fresh == [q |-> Start, acc |-> 0, cps |-> NoUnits, used |-> 0, n |-> 0]

Verdict(q) == IF q = Start THEN "ok" ELSE IF q = Broken THEN "bad" ELSE "cut"

Scan(T(_,_), str) ==
    LET Op(s, u) == IF s.q = Broken THEN s ELSE Feed(T, s, u)
        end == FoldLeft(Op, Fresh, str)
    IN  [st |-> Verdict(end.q), cps |-> AllOf(end.cps), used |-> end.used]

Table8(q, b) == T8[q][b]
Scan8(str)  == Scan(Table8, str)
Scan16(str) == Scan(Trans16, str)
ScanU2(str) == Scan(TransFlat, str)
ScanU4(str) == Scan(TransFlat, str)

\* what the library sees of a basic_string: everything before the first NUL
CStr(s) == LET z == SelectInSeq(s, LAMBDA x : x = 0)
           IN  IF z = 0 THEN s ELSE SubSeq(s, 1, z - 1)
=============================================================================
