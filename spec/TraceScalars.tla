------------------------------ MODULE TraceScalars ------------------------------
(***************************************************************************)
(* Checks recorded calls of the scalar helpers and a machine of four       *)
(* complex registers.  The registers follow the observed ones.             *)
(***************************************************************************)
EXTENDS Scalars, Json, IOUtils

Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, z, bad

Owner(op) == IF SubSeq(op, 1, 2) = "z_" THEN "D01" ELSE "U01"

Faults(ev) ==
  IF Prop = "L06"
  THEN (IF ev.s # "panic" THEN {} ELSE IF ev.op = "u_fact" /\ ev.i[1] > 20 THEN {"panic above 20"} ELSE {"panic"})
  ELSE IF Prop # Owner(ev.op) THEN {}
  ELSE IF Prop = "D01" THEN ZFaults(ev.op, ev.i, ev.t, z, ev.s, ev.e, ev.m, ev.z)
  ELSE UtilFaults(ev.op, ev.i, ev.t, ev.w, ev.s, ev.e, ev.v)

Init == l = 1 /\ bad = {} /\ z = [r \in 1..4 |-> <<Zero, Zero>>]

Step ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l]
         faults == IF "undecided" \in DOMAIN ev THEN {} ELSE Faults(ev)
     IN  /\ bad' = faults
         /\ (faults # {} => PrintT(<<"REJECT", l, ev.op, faults>>))
         /\ z' = ev.z
         /\ l' = l + 1

Spec == Init /\ [][Step]_<<l, z, bad>>

Complete == TLCGet("stats").diameter = Len(Trace) + 1
===============================================================================
