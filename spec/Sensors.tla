-------------------------------- MODULE Sensors --------------------------------
(***************************************************************************)
(* A calibrated three-axis sensor: gyrometer, accelerometer, magnetometer. *)
(* A calibration is twelve tokens: the three scales, the six factors xy,   *)
(* xz, yx, yz, zx, zy (factor ab feeds raw axis a into corrected axis b)   *)
(* and the three biases.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Fx, Tok

Fresh == [init |-> FALSE, cfg |-> <<>>, meas |-> <<Zero, Zero, Zero>>]

AllFin(v) == \A k \in DOMAIN v : IsFin(v[k])

\* Factors of the raw axes x, y, z in corrected axis k, and the bias.
RowOf(c, k) == CASE k = 1 -> <<c[1], c[6], c[8]>>
                 [] k = 2 -> <<c[4], c[2], c[9]>>
                 [] k = 3 -> <<c[5], c[7], c[3]>>
Bias(c, k) == c[9 + k]

\* The calibration one gets without asking for any leaves samples as they are.
Identity12 == <<OneT, OneT, OneT, Zero, Zero, Zero, Zero, Zero, Zero, Zero, Zero, Zero>>
Chosen(t) == IF t = <<>> THEN Identity12 ELSE t

\* Corrected axis k of a raw sample, as an expectation token.
Corrected(c, raw, k) ==
  LET row == RowOf(c, k)
      d == TLCEval([j \in 1..3 |-> SubT(raw[j], Bias(c, j))])
  IN  IF \A j \in 1..3 : d[j][1] = 0 THEN SumProd(row, d, Plus(3))
      \* as good as the largest of the products, whatever the order of evaluation
      ELSE IF \A j \in 1..3 : IsFin(row[j]) /\ IsFin(raw[j]) /\ IsFin(Bias(c, j))
      THEN SumProd(row \o row, raw \o [j \in 1..3 |-> Bias(c, j)], <<1, 1, 1, -1, -1, -1>>)
      ELSE Fallback({raw[j] : j \in 1..3} \cup {row[j] : j \in 1..3} \cup {Bias(c, j) : j \in 1..3})

\* Fixed-point view of the corrected sample (for the filters); 2^28 stands for anything too large.
Near256(t) == IsEx(t) /\ Abs(t[2]) <= 16384
Crisp(c, k, raw) == LET row == RowOf(c, k) IN
  \A j \in 1..3 : IsEx(row[j]) /\ Abs(row[j][2]) <= 1024 /\ Near256(raw[j]) /\ Near256(Bias(c, j))
CorrFx(c, raw) ==
  TLCEval([k \in 1..3 |->
    LET row == RowOf(c, k) IN
    IF Crisp(c, k, raw)
    THEN 16 * (row[1][2] * (raw[1][2] - Bias(c, 1)[2]) + row[2][2] * (raw[2][2] - Bias(c, 2)[2])
               + row[3][2] * (raw[3][2] - Bias(c, 3)[2]))
    ELSE IF \E j \in 1..3 : Abs(FxOf(row[j])) >= 268435456 \/ Abs(FxOf(raw[j])) >= 268435456 \/ Abs(FxOf(Bias(c, j))) >= 268435456
    THEN 268435456
    ELSE LET t == TLCEval([j \in 1..3 |-> SatMul(FxOf(row[j]), FxOf(raw[j]) - FxOf(Bias(c, j)))])
         IN  \* saturated terms must not cancel each other
             IF \E j \in 1..3 : Abs(t[j]) >= 268435456 THEN 268435456 ELSE t[1] + t[2] + t[3]])

NotInit(k) == CASE k = 0 -> "GyrNotInit" [] k = 1 -> "AccNotInit" [] k = 2 -> "MagNotInit"
AlreadyInit(k) == CASE k = 0 -> "GyrAlreadyInit" [] k = 1 -> "AccAlreadyInit" [] k = 2 -> "MagAlreadyInit"

\* Outcome a call must have in a state: the error names allowed (empty: must succeed), the configuration
\* and measurement afterwards.  Refusals leave both.
Out(refuse, errs, cfg, meas, init) == [refuse |-> refuse, errs |-> errs, cfg |-> cfg, meas |-> meas, init |-> init]
Keep(st, refuse, errs) == Out(refuse, errs, st.cfg, st.meas, st.init)

SInit(st, k, c) ==
  IF st.init THEN Keep(st, "yes", {AlreadyInit(k)})
  ELSE IF ~AllFin(c) THEN Keep(st, "yes", {"Nan", "Inf"})
  ELSE Out("no", {}, c, st.meas, TRUE)
SSet(st, k, c) ==
  IF ~st.init THEN Keep(st, "yes", {NotInit(k)})
  ELSE IF ~AllFin(c) THEN Keep(st, "yes", {"Nan", "Inf"})
  ELSE Out("no", {}, c, st.meas, TRUE)
SUpdate(st, k, raw) ==
  IF ~st.init THEN Keep(st, "yes", {NotInit(k)})
  ELSE IF ~AllFin(raw) THEN Keep(st, "yes", {"Nan", "Inf"})
  ELSE LET m == TLCEval([j \in 1..3 |-> Corrected(st.cfg, raw, j)])
       IN  IF \E j \in 1..3 : m[j][1] = 8 THEN Keep(st, "yes", {"Nan", "Inf"})
           ELSE Out(IF \E j \in 1..3 : m[j][1] = 9 THEN "maybe" ELSE "no", {"Nan", "Inf"}, st.cfg, m, TRUE)

\* What is wrong with an observed call: o = [s, e, c, ce, m, me], old state and required outcome.
SensorFaults(st, k, x, s, e, p) ==
  LET refused == s = "err"
      \* a call that may be refused is judged by what it did
      init == IF refused THEN st.init ELSE x.init
      cfg == IF refused THEN st.cfg ELSE x.cfg
      meas == IF refused THEN st.meas ELSE x.meas
  IN  IF s = "panic" \/ p.ce = "panic" \/ \E j \in 1..3 : p.me[j] = "panic" THEN {"panic"}
      ELSE (IF x.refuse = "yes" /\ ~refused THEN {"accepted"} ELSE {})
           \cup (IF x.refuse = "no" /\ refused THEN {"refused"} ELSE {})
           \cup (IF refused /\ x.refuse # "no" /\ e \notin x.errs THEN {"errkind"} ELSE {})
           \cup (IF ~init THEN IF p.ce = NotInit(k) /\ \A j \in 1..3 : p.me[j] = NotInit(k) THEN {} ELSE {"readable"}
                 ELSE (IF p.ce = "" /\ p.c = cfg THEN {} ELSE {"configuration"})
                      \cup (IF \A j \in 1..3 : p.me[j] = "" /\ MatchT(meas[j], p.m[j][1]) THEN {} ELSE {"measurement"}))

\* The state observed after a call.
SObserved(st, p) ==
  IF p.ce # "" THEN [st EXCEPT !.init = FALSE]
  ELSE [init |-> TRUE, cfg |-> p.c,
        meas |-> [j \in 1..3 |-> IF p.me[j] = "" THEN p.m[j][1] ELSE Zero]]
===============================================================================
