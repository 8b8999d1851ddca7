----------------------------- MODULE TraceRotation ----------------------------
EXTENDS Rotation, Json, IOUtils

Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad

Judge(ev) ==
  LET f == ev.x
      q == SubSeq(f, 1, 4)
  IN  IF ev.s # "ok" THEN {"refused"}
      ELSE CASE ev.op = "dcm" -> DcmFaults(q, SubSeq(f, 5, 7), ev.o)
             [] ev.op = "comp" -> CompFaults(q, SubSeq(f, 5, 8), ev.o)
             [] ev.op = "extract" -> ExtractFaults(ev.i[1], q, ev.o)
             [] ev.op = "euler" -> EulerFaults(q, ev.o)
             [] ev.op = "exp" -> ExpFaults(q, ev.o)
             [] ev.op = "log" -> LogFaults(SubSeq(f, 1, 3), f[4], SubSeq(f, 5, 13), ev.o)
             [] ev.op = "logaa" -> LogFaults(NormalizeFx(SubSeq(f, 1, 3)), f[4], ev.o[4], ev.o)
             [] ev.op = "slerp" -> SlerpFaults(SubSeq(f, 2, ev.i[1] + 1), SubSeq(f, ev.i[1] + 2, 2 * ev.i[1] + 1), f[1], ev.o)
             [] ev.op = "lerp" -> LerpFaults(SubSeq(f, 2, ev.i[1] + 1), SubSeq(f, ev.i[1] + 2, 2 * ev.i[1] + 1), f[1], ev.o)

\* Which property a call belongs to.
Owner(op) == CASE op \in {"dcm", "comp"} -> "Q02"
               [] op = "extract" -> "Q03"
               [] op = "euler" -> "Q04"
               [] op \in {"exp", "log", "logaa"} -> "Q05"
               [] op \in {"slerp", "lerp"} -> "A08"

Faults(ev) ==
  IF Prop = "L06" THEN (IF ev.s = "panic" THEN {"panic"} ELSE {})
  ELSE IF Prop # Owner(ev.op) THEN {}
  ELSE IF ev.s = "panic" THEN {"panic"}
  ELSE IF ev.nf = 1 THEN {"range"}
  ELSE Judge(ev)

Init == l = 1 /\ bad = {}

Step ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l]
         faults == IF "undecided" \in DOMAIN ev THEN {} ELSE Faults(ev)
     IN  /\ bad' = faults
         /\ (faults # {} => PrintT(<<"REJECT", l, ev.op, faults>>))
         /\ l' = l + 1

Spec == Init /\ [][Step]_<<l, bad>>

Complete == TLCGet("stats").diameter = Len(Trace) + 1
===============================================================================
