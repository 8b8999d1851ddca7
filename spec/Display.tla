-------------------------------- MODULE Display --------------------------------
(***************************************************************************)
(* What a display of numbers may look like: one line per row, one word per *)
(* element, every number rounded to three decimals.  A word is observed as *)
(* <<thousandths, bits of the nearest float>>.                             *)
(***************************************************************************)
EXTENDS Tok
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Fx

\* The word w stands for the value of token t; either neighbour for values half way between.
Word(t, w) ==
  /\ Len(w) = 2
  /\ IF IsEx(t) THEN Abs(w[1]) <= 268000000 /\ Abs(w[1] * 8 - t[2] * 125) <= 4
     ELSE IF Abs(t[3]) < 1073741824
     THEN LET whole == t[3] \div ONE
              d == w[1] - whole * 1000
          IN  Abs(d) <= 2000 /\ Abs(d * ONE - (t[3] % ONE) * 1000) <= ONE \div 2 + 600
     ELSE w[2] = t[2]
Line(ts, ws) == Len(ts) = Len(ws) /\ \A k \in 1..Len(ts) : Word(ts[k], ws[k])
\* Elements e of a container with r rows and c columns, row after row.
Shown(r, c, e, lines) ==
  Len(lines) = r /\ \A i \in 1..r : Line(SubSeq(e, (i - 1) * c + 1, i * c), lines[i])
===============================================================================
