------------------------------ MODULE PemPair -----------------------------
(* Two PEM readers at work at the same time, each on a text of its own with *)
(* markers of its own.  They take lines in any order; what each finds is    *)
(* what it would find alone.                                                *)
EXTENDS Base64, Json

CONSTANTS Texts,     \* which of the texts below to use
          MaxCalls   \* calls each reader makes

VARIABLES text, marks, rd, sched
vars == <<text, marks, rd, sched>>

Who == {1, 2}
Data(l) == CASE l = "d1" -> <<1, 2, 3>> [] l = "d2" -> <<254, 0, 255, 17>> [] l = "d3" -> <<90, 91, 92, 93, 94, 0>> [] OTHER -> <<>>
Book == << <<"BA", "d1", "EA">>,
           <<"BB", "d3", "d1", "EB">>,
           <<"junk", "BA", "d3", "EA", "BB", "d2", "EB">>,
           <<"BB", "EB", "BA", "d2", "EA">>,
           <<"BA", "d1", "BB", "d3", "EA">>,
           <<"BB", "d1">>,
           <<"EA", "junk">>,
           <<"BA", "d3", "EB", "EA", "junk", "BA", "d1", "EA">> >>
\* markers of the first and of the second reader
A == <<"BA", "EA">>
B == <<"BB", "EB">>
Pairs == {<< <<A, B>>, <<B, A>> >>, << <<A>>, <<B, A>> >>, << <<B>>, <<B>> >>, << <<A, B>>, <<A, B>> >>}
StartOf(m, l) == {i \in 1..Len(m) : m[i][1] = l}
New == [pos |-> 0, st |-> "spam", which |-> 0, buf |-> <<>>, out |-> <<>>]

Init == /\ text \in (Texts \X Texts)
        /\ marks \in Pairs
        /\ rd = [w \in Who |-> New] /\ sched = <<>>
Line(w) == Book[text[w]]
Return(w, octs, p) ==
  LET s == rd[w] out == Append(s.out, [ix |-> s.which - 1, octs |-> octs, pos |-> p])
  IN [pos |-> p, st |-> IF s.which = 0 \/ Len(out) = MaxCalls THEN "done" ELSE "spam", which |-> 0, buf |-> <<>>, out |-> out]
\* reader w takes a line, or learns that there is none
Take(w) ==
  /\ rd[w].st # "done"
  /\ sched' = Append(sched, w)
  /\ LET s == rd[w] IN
     rd' = [rd EXCEPT ![w] =
       IF s.pos = Len(Line(w)) THEN Return(w, <<>>, s.pos)
       ELSE LET l == Line(w)[s.pos + 1] IN
            CASE s.st = "spam" /\ StartOf(marks[w], l) = {} -> [s EXCEPT !.pos = @ + 1]
              [] s.st = "spam" /\ StartOf(marks[w], l) # {} -> [s EXCEPT !.pos = @ + 1, !.st = "ham", !.which = CHOOSE i \in StartOf(marks[w], l) : TRUE]
              [] s.st = "ham" /\ l = marks[w][s.which][2] -> Return(w, s.buf, s.pos + 1)
              [] OTHER -> [s EXCEPT !.pos = @ + 1, !.buf = @ \o Data(l)]]
  /\ UNCHANGED <<text, marks>>
  /\ ((\A v \in Who : rd'[v].st = "done") =>
        PrintT("PAIR " \o ToJson([texts |-> [v \in Who |-> Line(v)], marks |-> marks, sched |-> sched', outs |-> [v \in Who |-> rd'[v].out]])))
Next == \E w \in Who : Take(w)
Spec == Init /\ [][Next]_vars

(* ---- *)
Found(w, p) ==
  LET tx == Line(w) m == marks[w]
      starts == {i \in p + 1..Len(tx) : StartOf(m, tx[i]) # {}} IN
  IF starts = {} THEN [ix |-> -1, octs |-> <<>>, pos |-> Len(tx)]
  ELSE LET s == CHOOSE i \in starts : \A j \in starts : i <= j
           k == CHOOSE i \in StartOf(m, tx[s]) : TRUE
           stops == {i \in s + 1..Len(tx) : tx[i] = m[k][2]}
       IN IF stops = {} THEN [ix |-> k - 1, octs |-> <<>>, pos |-> Len(tx)]
          ELSE LET e == CHOOSE i \in stops : \A j \in stops : i <= j
               IN [ix |-> k - 1, octs |-> FlattenSeq([i \in 1..e - s - 1 |-> Data(tx[s + i])]), pos |-> e]
\* whatever the order, each finds what it would find alone
Alone == \A w \in Who : \A i \in 1..Len(rd[w].out) : rd[w].out[i] = Found(w, IF i = 1 THEN 0 ELSE rd[w].out[i - 1].pos)
===========================================================================
