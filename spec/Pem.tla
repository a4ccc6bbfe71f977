-------------------------------- MODULE Pem -------------------------------
(* The PEM reader: a text of lines, and a reader called on it again and      *)
(* again until it finds no further block.  The machine takes one line at a   *)
(* time; Found says declaratively what a call is to return.                  *)
EXTENDS Base64, Json

CONSTANTS MaxLen,    \* lines of a text
          Setups     \* which of the marker set-ups to use

VARIABLES setup, text, pos, st, which, buf, from, out
vars == <<setup, text, pos, st, which, buf, from, out>>

(* ---- lines.  Markers are known by name; data lines by the octets they      *)
(* carry; "blank" has nothing, "junk" has no base64 character in it.         *)
Data(j) == CASE j = 1 -> <<1, 2, 3>> [] j = 2 -> <<254, 0, 255, 17>> [] OTHER -> <<90, 91, 92, 93, 94, 0>>
(* ---- set-ups: the marker pairs of the call, as <<start, stop>>, and the    *)
(* lines a text is made of                                                    *)
\* one list of pairs for each call in turn: a reader may look for one kind of
\* block after the other
Marks == [one    |-> <<<<<<"BA", "EA">>>>>>,
          two    |-> <<<<<<"BA", "EA">>, <<"BB", "EB">>>>>>,
          three  |-> <<<<<<"BC", "EC">>, <<"BA", "EA">>, <<"BB", "EB">>>>>>,
          shared |-> <<<<<<"BA", "EA">>, <<"BB", "EA">>>>>>,
          same   |-> <<<<<<"BA", "BA">>, <<"BB", "EB">>>>>>,
          turns  |-> <<<<<<"BA", "EA">>>>, <<<<"BB", "EB">>>>>>,
          swap   |-> <<<<<<"BA", "EA">>, <<"BB", "EB">>>>, <<<<"BB", "EB">>, <<"BA", "EA">>>>, <<<<"BB", "EA">>>>>>,
          default |-> <<<<<<"BCERT", "ECERT">>>>>>]
Lines == [one    |-> {"BA", "EA", "BB", "EB", "d1", "d2", "d3", "blank"},
          two    |-> {"BA", "EA", "BB", "EB", "d2", "d3", "junk"},
          three  |-> {"BA", "EA", "BB", "EB", "BC", "EC", "d1"},
          shared |-> {"BA", "EA", "BB", "d1", "d2"},
          same   |-> {"BA", "BB", "EB", "d1"},
          turns  |-> {"BA", "EA", "BB", "EB", "d1", "d2"},
          swap   |-> {"BA", "EA", "BB", "EB", "d1"},
          default |-> {"BCERT", "ECERT", "BA", "d1", "d2", "junk", "blank"}]
Octets(l) == CASE l = "d1" -> Data(1) [] l = "d2" -> Data(2) [] l = "d3" -> Data(3) [] OTHER -> <<>>
MarksOf(i) == LET q == Marks[setup] IN q[((i - 1) % Len(q)) + 1]
Markers == MarksOf(Len(out) + 1)
StartIn(ms, l) == {i \in 1..Len(ms) : ms[i][1] = l}
StartOf(l) == StartIn(Markers, l)

Init == /\ setup \in Setups /\ text = <<>> /\ pos = 0 /\ st = "writing" /\ which = 0 /\ buf = <<>> /\ from = 0 /\ out = <<>>
Write == /\ st = "writing" /\ Len(text) < MaxLen
         /\ \E l \in Lines[setup] : text' = Append(text, l)
         /\ UNCHANGED <<setup, pos, st, which, buf, from, out>>
Open == /\ st = "writing" /\ st' = "spam" /\ UNCHANGED <<setup, text, pos, which, buf, from, out>>

\* a call returns: the index (from 0), the octets, and how many lines are read
Return(ix, octs, p) == /\ out' = Append(out, [ix |-> ix - 1, octs |-> octs, pos |-> p, from |-> from])
                       /\ st' = IF ix = 0 THEN "done" ELSE "spam"
                       /\ which' = 0 /\ buf' = <<>> /\ pos' = p /\ from' = 0
\* only the last data line of a block is padded, as the RFCs have it
Ends(o) == \A i \in 1..Len(o) : \A j \in o[i].from + 1..o[i].pos : text[j] = "d2" => \A k \in j + 1..o[i].pos : Octets(text[k]) = <<>>
\* the data lines of the block a call returns
IsData(l) == l \in {"d1", "d2", "d3"}
HoldsOf(o, i) == IF o.ix = -1 \/ MarksOf(i)[o.ix + 1][2] # text[o.pos] THEN <<>> ELSE SelectSeq(SubSeq(text, o.from + 1, o.pos - 1), IsData)
\* outside of a block at the end: the text may be followed by any other
Closed == ((Len(out') - 1) % Len(Marks[setup])) = 0 /\ \A i \in 1..Len(out') : out'[i].ix >= 0 => out'[i].pos > out'[i].from /\ text[out'[i].pos] = MarksOf(i)[out'[i].ix + 1][2]
ReadLine ==
  /\ st \in {"spam", "ham"}
  /\ IF pos = Len(text) THEN Return(which, <<>>, pos)
     ELSE LET l == text[pos + 1] IN
          CASE st = "spam" /\ StartOf(l) = {} -> pos' = pos + 1 /\ UNCHANGED <<st, which, buf, from, out>>
            [] st = "spam" /\ StartOf(l) # {} ->
                 /\ pos' = pos + 1 /\ st' = "ham" /\ buf' = <<>> /\ from' = pos + 1 /\ UNCHANGED out
                 /\ which' = CHOOSE i \in StartOf(l) : TRUE
            [] st = "ham" /\ l = Markers[which][2] -> Return(which, buf, pos + 1)
            [] OTHER -> pos' = pos + 1 /\ buf' = buf \o Octets(l) /\ UNCHANGED <<st, which, from, out>>
  /\ UNCHANGED <<setup, text>>
  /\ ((st' = "done" /\ Ends(out')) => PrintT("PEM " \o ToJson([setup |-> setup, text |-> text, marks |-> Marks[setup], calls |-> out', whole |-> Closed, holds |-> [i \in 1..Len(out') |-> HoldsOf(out'[i], i)]])))
Next == Write \/ Open \/ ReadLine
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------------ *)
(* What a call starting behind line p returns                               *)
FoundIn(tx, p, ms) ==
  LET starts == {i \in p + 1..Len(tx) : StartIn(ms, tx[i]) # {}} IN
  IF starts = {} THEN [ix |-> -1, octs |-> <<>>, pos |-> Len(tx), from |-> 0]
  ELSE LET s == CHOOSE i \in starts : \A j \in starts : i <= j
           w == CHOOSE i \in StartIn(ms, tx[s]) : TRUE
           stops == {i \in s + 1..Len(tx) : tx[i] = ms[w][2]}
       IN IF stops = {} THEN [ix |-> w - 1, octs |-> <<>>, pos |-> Len(tx), from |-> s]
          ELSE LET e == CHOOSE i \in stops : \A j \in stops : i <= j
               IN [ix |-> w - 1, octs |-> FlattenSeq([i \in 1..e - s - 1 |-> Octets(tx[s + i])]), pos |-> e, from |-> s]
Correct == \A i \in 1..Len(out) : out[i] = FoundIn(text, IF i = 1 THEN 0 ELSE out[i - 1].pos, MarksOf(i))
\* a text that ends outside of a block, written twice, holds its blocks twice
Shift(o) == [o EXCEPT !.pos = @ + Len(text), !.from = IF o.ix = -1 THEN 0 ELSE @ + Len(text)]
Doubled == (st = "done" /\ ((Len(out) - 1) % Len(Marks[setup])) = 0
            /\ \A i \in 1..Len(out) : out[i].ix >= 0 => out[i].pos > out[i].from /\ text[out[i].pos] = MarksOf(i)[out[i].ix + 1][2]) =>
  LET n == Len(out) - 1
      both == [i \in 1..2 * n + 1 |-> IF i <= n THEN out[i] ELSE Shift(out[i - n])]
      tx == text \o text
  IN \A i \in 1..2 * n + 1 : both[i] = FoundIn(tx, IF i = 1 THEN 0 ELSE both[i - 1].pos, MarksOf(i))
\* lines before the first marker only put it further down
Spam == st = "done" => LET q == FoundIn(text, 0, MarksOf(1)) IN
   FoundIn(<<"junk", "junk">> \o text, 0, MarksOf(1)) = [q EXCEPT !.pos = @ + 2, !.from = IF q.ix = -1 THEN 0 ELSE @ + 2]
\* what a call returns is what its data lines hold, so a line may hold any amount
Held == st = "done" => \A i \in 1..Len(out) : out[i].octs = FlattenSeq([j \in 1..Len(HoldsOf(out[i], i)) |-> Octets(HoldsOf(out[i], i)[j])])
\* reading goes forward, and ends
Forward == \A i \in 2..Len(out) : out[i].pos >= out[i - 1].pos /\ (out[i].ix >= 0 => out[i].pos > out[i - 1].pos)
LastSaysNone == st = "done" => out[Len(out)].ix = -1 /\ out[Len(out)].octs = <<>>
\* every complete block that does not begin inside another one is returned
Blocks == st = "done" => \A i \in 1..Len(out) : out[i].ix >= 0 => out[i].pos = Len(text) \/ text[out[i].pos] = MarksOf(i)[out[i].ix + 1][2]
===========================================================================
