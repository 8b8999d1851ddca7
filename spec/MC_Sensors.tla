------------------------------- MODULE MC_Sensors -------------------------------
(***************************************************************************)
(* One sensor of each kind under every sequence of construction, (re)      *)
(* calibration and sampling with a few calibrations and samples, some      *)
(* invalid.  Every transition is printed as a call for the library.        *)
(***************************************************************************)
EXTENDS Sensors

CONSTANTS Edges, Sensing, Solo     \* Sensing: the sensors taking part; Solo: one at a time, with one more calibration

VARIABLE sens
E(n) == <<0, n>>
Skewed == <<E(128), E(64), E(-64), E(32), E(-64), E(16), E(96), E(-8), E(48), E(64), E(32), E(-128)>>
Shifted == <<E(64), E(64), E(64), E(0), E(0), E(0), E(0), E(0), E(0), E(-16), E(128), E(4)>>
Good == {Skewed, Shifted} \cup (IF Solo THEN {Identity12} ELSE {})
Invalid == <<<<2, 0>>, <<3, 0>>, <<4, 0>>>>
BadCal == {[Skewed EXCEPT ![k] = Invalid[(k % 3) + 1]] : k \in 1..12}
Cals == Good \cup BadCal
Sample == <<E(64), E(128), E(256)>>
Other == <<E(-192), E(32), E(0)>>
BadRaw == {[Sample EXCEPT ![k] = Invalid[k]] : k \in 1..3}
Raws == {Sample, Other} \cup BadRaw

\* A state as a tuple of integers.
Number(st) == LET c == IF ~st.init THEN 0 ELSE IF st.cfg = Skewed THEN 1 ELSE IF st.cfg = Shifted THEN 2 ELSE 3
              IN  <<c, st.meas[1][2], st.meas[2][2], st.meas[3][2]>>
Name(s) == Number(s[0]) \o Number(s[1]) \o Number(s[2])

Emit(op, k, toks) == Edges => PrintT(<<"EDGE", Name(sens), op, <<k>>, toks, Name(sens')>>)

After(st, x) == IF x.refuse = "yes" THEN st ELSE [init |-> x.init, cfg |-> x.cfg, meas |-> x.meas]

New(k) == sens' = [sens EXCEPT ![k] = Fresh] /\ Emit("s_new", k, <<>>)
Calibrate(k, c) == sens' = [sens EXCEPT ![k] = After(@, SInit(@, k, c))] /\ Emit("s_init", k, c)
Recalibrate(k, c) == sens' = [sens EXCEPT ![k] = After(@, SSet(@, k, c))] /\ Emit("s_set", k, c)
Measure(k, r) == sens' = [sens EXCEPT ![k] = After(@, SUpdate(@, k, r))] /\ Emit("s_upd", k, r)

Init == sens = [k \in 0..2 |-> Fresh]
Next == \E k \in {j \in Sensing : Solo => \A i \in 0..2 \ {j} : sens[i] = Fresh} : New(k) \/ (\E c \in Cals : Calibrate(k, c) \/ Recalibrate(k, c)) \/ (\E r \in Raws : Measure(k, r))
Spec == Init /\ [][Next]_sens

\* ---- invariants -----------------------------------------------------------------
Usable == \A k \in 0..2 : LET s == sens[k] IN
            IF s.init THEN s.cfg \in Good /\ \A j \in 1..3 : IsEx(s.meas[j]) ELSE s = Fresh
\* Measurements are corrections of samples under one of the calibrations, by the textbook formula.
Factor(c) == << <<c[1], c[6], c[8]>>, <<c[4], c[2], c[9]>>, <<c[5], c[7], c[3]>> >>
Formula(c, r, k) == LET m == Factor(c)[k] IN
  (m[1][2] * (r[1][2] - c[10][2]) + m[2][2] * (r[2][2] - c[11][2]) + m[3][2] * (r[3][2] - c[12][2])) \div 64
Explained == \A k \in 0..2 : sens[k].meas = Fresh.meas
             \/ \E c \in Good, r \in {Sample, Other} : \A j \in 1..3 : sens[k].meas[j] = E(Formula(c, r, j))
\* The fixed-point view of a correction used by the filters agrees with the exact one.
ASSUME Views == \A c \in Good, r \in {Sample, Other} : \A j \in 1..3 : CorrFx(c, r)[j] = 1024 * Formula(c, r, j)
\* A call touches one sensor only.
Alone == [][\E k \in 0..2 : \A j \in 0..2 \ {k} : sens'[j] = sens[j]]_sens
\* A measurement changes neither readiness nor calibration; only construction makes a sensor unready.
Ready == [][\A k \in 0..2 : sens[k].init /\ ~sens'[k].init => sens'[k] = Fresh]_sens
===============================================================================
