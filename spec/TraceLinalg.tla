------------------------------ MODULE TraceLinalg -----------------------------
(***************************************************************************)
(* Judges recorded calls of the numerical linear algebra operations, each  *)
(* on its own.                                                             *)
(***************************************************************************)
EXTENDS Linalg, Json, IOUtils

Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad

Tail2(s, k) == SubSeq(s, k, Len(s))

Judge(ev) ==
  LET n == ev.i[1]
      s == ev.i[2]
      a == SubSeq(ev.i, 3, 2 + n * n)
      ok == ev.s = "ok"
  IN  CASE ev.op \in {"det", "detn"} -> DetFaults(n, s, a, ok, ev.e, ev.o)
        [] ev.op = "inv" -> InvFaults(n, s, a, ok, ev.e, ev.o)
        [] ev.op = "solve" -> SolveFaults(n, s, a, Tail2(ev.i, 3 + n * n), ok, ev.e, ev.o)
        [] ev.op = "adj" -> AdjFaults(n, a, ok, ev.o)
        [] ev.op \in {"lr", "crout"} -> LuFaults(n, a, ok, ev.o)
        [] ev.op = "qr" -> QrFaults(n, a, ok, ev.o)
        [] ev.op = "qrn" -> QrNearFaults(n, a, ok, ev.o)
        [] ev.op = "chol" -> CholFaults(n, a, ok, ev.e, ev.o)
        [] ev.op = "lup" -> LupFaults(n, s, a, ok, ev.e, ev.o)
        [] ev.op = "nonsq" -> IF Prop # "L05" THEN {} ELSE NonSquareFaults(Tail2(ev.i, 3), ev.b, ev.o)
        [] ev.op = "pred" -> PredFaults(n, s, Tail2(ev.i, 3), ev.b)
        [] ev.op = "eigen" -> EigenFaults(n, a, ev.i[3 + n * n], ev.i[4 + n * n], Tail2(ev.i, 5 + n * n), ok, ev.e, ev.o)

\* Multiples of a singular matrix may pass for a regular one by rounding; the numbers mean nothing then.
Vague(ev) == ev.op \in {"inv", "solve"} /\ ev.i[2] # 0 /\ Det(SubSeq(ev.i, 3, 2 + ev.i[1] * ev.i[1]), ev.i[1]) = 0

Faults(ev) ==
  IF ev.s = "panic" \/ \E k \in DOMAIN ev.b : ev.b[k] = "panic" THEN {"panic"}
  ELSE IF Prop = "L06" THEN {}
  ELSE IF ev.nf = 1 THEN (IF Vague(ev) THEN {} ELSE {"range"})
  ELSE Judge(ev)

Init == l = 1 /\ bad = {}

Step ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l]
         faults == IF "undecided" \in DOMAIN ev THEN {} ELSE Faults(ev)
     IN  /\ bad' = faults
         /\ (faults # {} => PrintT(<<"REJECT", l, ev.op, faults>>))
         /\ l' = l + 1

Spec == Init /\ [][Step]_<<l, bad>>

Complete == TLCGet("stats").diameter = Len(Trace) + 1
===============================================================================
