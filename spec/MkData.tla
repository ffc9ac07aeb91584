------------------------------- MODULE MkData -------------------------------
(***************************************************************************)
(* mkUnicodeTestData: a run of the tool, from its arguments to its exit    *)
(* status.  A line of UnicodeData is <<code point, kind>>, kind 0 for an   *)
(* assigned one, 1 for private use, 2 for surrogates, 3 for a line that is *)
(* none of UnicodeData; the output is the array's entries, the last being  *)
(* the end mark.  The input may fail to be read after some lines, and the  *)
(* output may have room for some entries only.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANTS CodePoints, MaxLines

EndMark == -1                   \* 0xFFFFFFFF
Keep(line) == line[2] = 0
Entries(ls) == LET k == SelectSeq(ls, Keep) IN [j \in DOMAIN k |-> k[j][1]]
\* what has to be in the output file
Array(ls) == IF ls = <<>> THEN <<>> ELSE Append(Entries(ls), EndMark)
WellFormed(ls) == \A j \in DOMAIN ls : ls[j][2] # 3
\* readAll: the input could be read to its end; fits: the output has room for all of it
ExitOf(na, hi, cw, readAll, ls, fits) ==
    IF na # 2 THEN 1 ELSE IF ~hi THEN 2 ELSE IF ~cw THEN 3 ELSE IF ~readAll \/ ~WellFormed(ls) \/ ~fits THEN 4 ELSE 0

VARIABLES nargs, hasInput, canWrite,    \* how it is called
          lines, i,                     \* the input, lines read
          readable,                     \* how many lines can be read before reading fails; MaxLines + 1: all
          room,                         \* how many entries the output has room for
          written,                      \* entries so far
          touched,                      \* the output file was created or changed
          rc                            \* exit status; -1 while it runs
mvars == <<nargs, hasInput, canWrite, lines, i, readable, room, written, touched, rc>>
world == <<nargs, hasInput, canWrite, lines, readable, room>>      \* what the tool finds and cannot change

Lines == UNION {[1..n -> CodePoints \X (0..3)] : n \in 0..MaxLines}
Init == /\ nargs \in 0..3 /\ hasInput \in BOOLEAN /\ canWrite \in BOOLEAN /\ lines \in Lines
        /\ readable \in 0..MaxLines + 1 /\ room \in 0..MaxLines + 1
        /\ (~hasInput => lines = <<>>)
        /\ i = 0 /\ written = <<>> /\ touched = FALSE /\ rc = -1
Refuse(code) == rc' = code /\ UNCHANGED <<world, i, written, touched>>
WrongArgs == rc = -1 /\ nargs # 2 /\ Refuse(1)
NoInput   == rc = -1 /\ nargs = 2 /\ ~hasInput /\ Refuse(2)
NoOutput  == rc = -1 /\ nargs = 2 /\ hasInput /\ ~canWrite /\ Refuse(3)
Ready == rc = -1 /\ nargs = 2 /\ hasInput /\ canWrite
Open  == Ready /\ ~touched /\ touched' = TRUE /\ UNCHANGED <<world, i, written, rc>>
CanRead == i < readable
Line  == /\ Ready /\ touched /\ CanRead /\ i < Len(lines) /\ lines[i + 1][2] # 3 /\ i' = i + 1
         /\ written' = IF Keep(lines[i + 1]) THEN Append(written, lines[i + 1][1]) ELSE written
         /\ UNCHANGED <<world, touched, rc>>
\* the output is buffered: that it does not fit shows at the latest when it is closed
Overflows == Len(written) > room
Malformed  == Ready /\ touched /\ CanRead /\ i < Len(lines) /\ lines[i + 1][2] = 3 /\ Refuse(4)
ReadFails  == Ready /\ touched /\ ~CanRead /\ Refuse(4)
WriteFails == Ready /\ touched /\ Overflows /\ Refuse(4)
Close == /\ Ready /\ touched /\ i = Len(lines) /\ CanRead
         /\ written' = IF lines = <<>> THEN <<>> ELSE Append(written, EndMark)
         /\ rc' = (IF Len(written') > room THEN 4 ELSE 0) /\ UNCHANGED <<world, i, touched>>
Next == WrongArgs \/ NoInput \/ NoOutput \/ Open \/ Line \/ Malformed \/ ReadFails \/ WriteFails \/ Close
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)

(***************************************************************************)
(* C22                                                                     *)
(***************************************************************************)
\* reading has to come to the end of the input, too, not only to the last line
ReadAll == readable > Len(lines)
Fits == Len(Array(lines)) <= room
ExitsAsSpecified == rc # -1 => rc = ExitOf(nargs, hasInput, canWrite, ReadAll, lines, Fits)
TouchesNothing == rc \in {1, 2, 3} => ~touched /\ written = <<>>
WritesTheArray == rc = 0 => written = Array(lines)
NeverHalf == rc # -1 /\ touched /\ (written # Array(lines) \/ Len(written) > room) => rc = 4
InOrder == rc = -1 => written = Entries(SubSeq(lines, 1, i))
OnlyAssigned == \A k \in DOMAIN written : written[k] = EndMark \/ \E j \in DOMAIN lines : lines[j] = <<written[k], 0>>
Ends == <>(rc # -1)
=============================================================================
