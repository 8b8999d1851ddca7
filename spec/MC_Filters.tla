------------------------------- MODULE MC_Filters -------------------------------
(***************************************************************************)
(* Life of the three filters under every sequence of construction, valid   *)
(* and refused initialisation, recalibration and samples.  The attitude is *)
(* abstracted to whether an accepted sample has been seen since            *)
(* initialisation.  Every transition is printed as a call for the library. *)
(***************************************************************************)
EXTENDS Filters

CONSTANTS Edges, Parts      \* Parts: subset of {"ar", "aq", "dv"} that takes part

VARIABLES ar, aq, dv
vars == <<ar, aq, dv>>

E(n) == <<0, n>>
Invalid == <<<<2, 0>>, <<3, 0>>, <<4, 0>>>>
Spoil(v, k) == [v EXCEPT ![k] = Invalid[(k % 3) + 1]]

Cal1 == Identity12
Cal2 == [Identity12 EXCEPT ![1] = E(96), ![10] = E(8)]
CalNo(c) == IF c = Cal1 THEN 1 ELSE 2
Att == <<E(32), E(-32), E(32), E(32)>>

\* ---- rate filter: 0, or the method plus one; sampled or not --------------------------
ArGood == Att \o <<E(2)>> \o Cal1
ArBad == {Spoil(ArGood, k) : k \in {1, 2, 3, 4} \cup 6..17}
Rates == <<E(32), E(-16), E(8)>>
Still == <<E(0), E(0), E(0)>>
NoAr == [on |-> 0, moved |-> 0]
ArMoves(m, r) == AllFin(r) /\ r # Still /\ m <= 2

\* ---- AQUA -----------------------------------------------------------------------------
Nine == <<E(1), E(32), E(16), E(6), E(13), E(58), E(58), E(628), E(32)>>
AqGood == Att \o Nine \o Cal1 \o Cal1 \o Cal1
Init6(mode, mask, gyr) == <<mode, mask, gyr, 1, 1, 1>>
AqInits == {<<Init6(mode, mask, gyr), AqGood>> : mode \in {0, 1}, mask \in {0, 15}, gyr \in {0, 1}}
           \cup {<<Init6(0, mask, 1), AqGood>> : mask \in 0..15}
           \cup {<<Init6(mode, 15, 1), Spoil(AqGood, k)>> : mode \in {0, 1}, k \in (1..4) \cup (14..49)}
Sample9 == Rates \o <<E(64), E(128), E(580), E(1280), E(-320), E(-1900)>>
AqSamples == {<<mask, Sample9>> : mask \in 0..7} \cup {<<7, Spoil(Sample9, k)>> : k \in 1..9}
NoAq == [on |-> 0, moved |-> 0, cal |-> <<0, 0, 0>>]
\* recalibrations: sensor and calibration
AqCals == {<<k, c>> : k \in 0..2, c \in {Cal1, Cal2, Spoil(Cal2, 1), Spoil(Cal2, 5), Spoil(Cal2, 12)}}

\* ---- Davenport ------------------------------------------------------------------------
DvInits == {<<E(a), E(b), E(628), E(32)>> : a \in {32, 64}, b \in {16, 64}}
           \cup {<<E(0), E(64), E(628), E(32)>>, <<E(64), E(0), E(628), E(32)>>, <<E(-64), E(64), E(628), E(32)>>,
                 <<E(64), E(65), E(628), E(32)>>, <<E(128), E(64), E(628), E(32)>>, <<Invalid[1], E(64), E(628), E(32)>>}
NoDv == 0

\* ---- transitions -------------------------------------------------------------------------
Name(a, q, d) == <<a.on, a.moved, q.on, q.moved, q.cal[1], q.cal[2], q.cal[3], d>>
Emit(op, i, t) == Edges => PrintT(<<"EDGE", Name(ar, aq, dv), op, i, t, Name(ar', aq', dv')>>)

ArNew == ar' = NoAr /\ UNCHANGED <<aq, dv>> /\ Emit("ar_new", <<>>, <<>>)
ArInit(m, t) ==
  /\ ar' = IF ArRefuses(ar.on # 0, t) THEN ar ELSE [on |-> m + 1, moved |-> 0]
  /\ UNCHANGED <<aq, dv>> /\ Emit("ar_init", <<m, 3>>, t)
ArSample(r) ==
  /\ ar' = IF ar.on # 0 /\ ArMoves(ar.on - 1, r) THEN [ar EXCEPT !.moved = 1] ELSE ar
  /\ UNCHANGED <<aq, dv>> /\ Emit("ar_upd", <<>>, r)

AqNew == aq' = NoAq /\ UNCHANGED <<ar, dv>> /\ Emit("aq_new", <<>>, <<>>)
AqInit(x) ==
  /\ aq' = IF AqRefuses(aq.on # 0, x[1], x[2]) THEN aq
           ELSE [on |-> x[1][1] + 1, moved |-> 0, cal |-> <<IF x[1][1] = 0 THEN 1 ELSE 0, 1, 1>>]
  /\ UNCHANGED <<ar, dv>> /\ Emit("aq_init", x[1], x[2])
AqSet(x) ==
  /\ aq' = IF aq.on = 0 \/ aq.cal[x[1] + 1] = 0 \/ ~AllFin(x[2]) THEN aq ELSE [aq EXCEPT !.cal[x[1] + 1] = CalNo(x[2])]
  /\ UNCHANGED <<ar, dv>> /\ Emit("aq_set", <<x[1]>>, x[2])
AqSample(x) ==
  /\ aq' = IF aq.on = 0 \/ BadSample(aq.on = 1, x[1], x[2]) THEN aq ELSE [aq EXCEPT !.moved = 1]
  /\ UNCHANGED <<ar, dv>> /\ Emit("aq_upd", <<x[1]>>, x[2])

DvNew == dv' = NoDv /\ UNCHANGED <<ar, aq>> /\ Emit("dv_new", <<>>, <<>>)
DvInit(t) ==
  /\ dv' = IF Weight(t[1]) /\ Weight(t[2]) THEN 1 ELSE dv
  /\ UNCHANGED <<ar, aq>> /\ Emit("dv_init", <<1, 1>>, t)
DvSample == UNCHANGED vars /\ Emit("dv_upd", <<>>, SubSeq(Sample9, 4, 9))

Init == ar = NoAr /\ aq = NoAq /\ dv = NoDv
Next == \/ "ar" \in Parts /\ (ArNew \/ (\E m \in 0..4, t \in {ArGood} : ArInit(m, t)) \/ (\E t \in ArBad : ArInit(0, t))
                              \/ (\E r \in {Rates, Still, Spoil(Rates, 1), Spoil(Rates, 2), Spoil(Rates, 3)} : ArSample(r)))
        \/ "aq" \in Parts /\ (AqNew \/ (\E x \in AqInits : AqInit(x)) \/ (\E x \in AqCals : AqSet(x)) \/ (\E x \in AqSamples : AqSample(x)))
        \/ "dv" \in Parts /\ (DvNew \/ (\E t \in DvInits : DvInit(t)) \/ DvSample)
Spec == Init /\ [][Next]_vars

\* ---- properties ---------------------------------------------------------------------------
Consistent ==
  /\ ar.on = 0 => ar = NoAr
  /\ aq.on = 0 => aq = NoAq
  /\ aq.on = 1 => aq.cal[1] # 0
  /\ aq.on = 2 => aq.cal[1] = 0
  /\ aq.on # 0 => aq.cal[2] # 0 /\ aq.cal[3] # 0
  /\ ar.moved = 1 => ar.on \in 1..3
\* A second initialisation never takes: a working filter changes its mode only by being constructed anew.
Once == [][/\ ar.on # 0 => ar'.on \in {0, ar.on}
           /\ aq.on # 0 => aq'.on \in {0, aq.on}
           /\ dv # 0 => dv' \in {0, dv}]_vars
\* After any history, refused calls included, a fresh filter can still be brought into use.
Retry == (ar.on = 0 => ~ArRefuses(FALSE, ArGood)) /\ (aq.on = 0 => ~AqRefuses(FALSE, Init6(0, 15, 1), AqGood))
\* One call touches one filter.
Alone == [][(ar' = ar /\ aq' = aq) \/ (ar' = ar /\ dv' = dv) \/ (aq' = aq /\ dv' = dv)]_vars
===============================================================================
