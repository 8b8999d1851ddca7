---------------------------- MODULE TraceContainers ---------------------------
(***************************************************************************)
(* Checks a recorded run of the register machine against Containers.       *)
(* After every call the specification state is set to what was observed,   *)
(* so that each call is judged on its own preconditions and one deviation  *)
(* does not hide the next.                                                 *)
(***************************************************************************)
EXTENDS Containers, Json, IOUtils

Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, regs, bad
vars == <<l, regs, bad>>

\* Which deviations concern which property.
Relevant(ev, fault) ==
  CASE Prop = "L01" -> ev.g = "life" \/ fault \in {"uninit", "dims"}
    [] Prop = "L02" -> ev.g \in {"el", "fill", "rowcol"} \/ ev.fn \in {"diag", "setq0", "setq1", "setq2", "setq3",
                                                                      "getq0", "getq1", "getq2", "getq3", "fillq"}
    [] Prop = "L03" -> fault \in {"finite", "nonfinite accepted"}
    [] Prop = "L04" -> ev.g \in {"edit", "rowcol"}
    [] Prop = "L05" -> fault \in {"accepted", "errkind", "refusal", "operand"}
    [] Prop = "L06" -> fault = "panic"
    [] Prop = "L07" -> ev.g = "show"
    [] Prop = "A01" -> ev.g \in {"ew", "eq"}
    [] Prop = "A02" -> ev.g = "prod"
    [] Prop = "A08" -> ev.g = "interp"
    [] Prop = "Q01" -> ev.g = "quat"
    [] Prop = "Q02" -> ev.g = "rot"
    [] Prop = "Q05" -> ev.fn = "qexp"
    [] OTHER -> TRUE

Init == /\ l = 1
        /\ regs = [q \in 0..12 |-> Uninit]
        /\ bad = {}

Step ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l]
         faults == IF "undecided" \in DOMAIN ev THEN {} ELSE {x \in Faults(ev, regs) : Relevant(ev, x)}
         P == PostOf(ev)
     IN  /\ bad' = faults
         /\ (faults # {} => PrintT(<<"REJECT", l, ev.op, faults>>))
         /\ regs' = [q \in 0..12 |-> IF q \in DOMAIN P THEN P[q] ELSE regs[q]]
         /\ l' = l + 1

Spec == Init /\ [][Step]_vars

Complete == TLCGet("stats").diameter = Len(Trace) + 1
===============================================================================
