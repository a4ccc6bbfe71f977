-------------------------------- MODULE Armor -----------------------------
(* Base64 text in every layout: octets are written, the text is broken into  *)
(* lines one break at a time, and read again.                                *)
EXTENDS Base64, Json

CONSTANTS Long,      \* longest of the octet strings broken at regular widths
          Free       \* longest of those broken at every set of places

VARIABLES octs, body, mode, breaks, at, sep, stage
vars == <<octs, body, mode, breaks, at, sep, stage>>

LF == <<10>>
CRLF == <<13, 10>>
Pattern(n, k) == [i \in 1..n |-> (i * 37 + n * 11 + k * 101 + ((i * i) % 7)) % 256]
Corner == {0, 1, 3, 4, 15, 16, 62, 63, 64, 127, 128, 190, 191, 192, 239, 240, 248, 250, 251, 252, 254, 255}
Few == {0, 3, 62, 63, 191, 252, 255}
Solid == {<<>>} \cup {<<a>> : a \in 0..255} \cup (Corner \X Corner) \cup (Few \X Few \X Few)
Lengths == 0..Long \cup {127, 128, 255, 256, 257, 1000}
Widths == {4, 8, 60, 64, 72, 76}
Seps == {LF, CRLF, <<32, 10>>, <<10, 10>>}

Size == Len(body)

Init ==
  /\ at = 0 /\ breaks = {} /\ stage = "breaking"
  /\ \/ mode = 0 /\ octs \in Solid /\ sep = LF                       \* one line
     \/ mode \in Widths /\ octs \in {Pattern(n, 1) : n \in Lengths} /\ sep \in {LF, CRLF}
     \/ mode = 1 /\ octs \in {Pattern(n, k) : n \in 1..Free, k \in 1..3} /\ sep \in Seps  \* anywhere
  /\ body = Enc64(octs)

Step ==
  /\ stage = "breaking" /\ at < Size
  /\ CASE mode = 0 -> at' = Size /\ UNCHANGED breaks
       [] mode = 1 -> at' = at + 1 /\ (breaks' = breaks \/ breaks' = breaks \cup {at + 1})
       [] OTHER -> at' = Size /\ breaks' = {i \in 1..Size : (i % mode) = 0}
  /\ UNCHANGED <<octs, body, mode, sep, stage>>
Text == FlattenSeq([i \in 1..Size |-> IF i \in breaks THEN <<body[i]>> \o sep ELSE <<body[i]>>])
\* a line of it may come any number of times: the octets it stands for come as often
Line == 3 * (mode \div 4)
More == IF mode \in {64, 76} /\ Len(octs) = Line + 10
        THEN <<[unit |-> SubSeq(octs, 1, Line), line |-> SubSeq(body, 1, mode), sep |-> sep,
                tail |-> SubSeq(octs, Line + 1, Len(octs)), last |-> SubSeq(body, mode + 1, Size)]>>
        ELSE <<>>
Times(s, n) == FlattenSeq([i \in 1..n |-> s])
Done ==
  /\ stage = "breaking" /\ at = Size /\ stage' = "read"
  /\ PrintT("B64 " \o ToJson([octs |-> octs, text |-> Text, mode |-> mode, lines |-> \A i \in breaks : (i % 4) = 0, more |-> More]))
  /\ UNCHANGED <<octs, body, mode, breaks, at, sep>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

(* ---- *)
RoundTrip == stage = "read" => Dec64(Text) = octs
Canonical == stage = "read" => Size = 4 * ((Len(octs) + 2) \div 3)
Padding == stage = "read" => \A i \in 1..Size : body[i] = PADC => i > Size - 2 /\ (Len(octs) % 3) # 0
Repeated == stage = "read" => \A i \in 1..Len(More) : \A n \in {0, 1, 2, 3, 7} :
  LET m == More[i] IN /\ Dec64(Times(m.line \o m.sep, n) \o m.last) = Times(m.unit, n) \o m.tail
                      /\ Dec64(Times(m.line, n) \o m.last) = Times(m.unit, n) \o m.tail
\* each line that is a multiple of four characters can be read alone
Pieces == stage = "read" /\ mode \in Widths =>
  LET n == (Size + mode - 1) \div mode
  IN FlattenSeq([i \in 1..n |-> Dec64(SubSeq(body, (i - 1) * mode + 1, IF i * mode > Size THEN Size ELSE i * mode))]) = octs
===========================================================================
