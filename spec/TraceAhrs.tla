------------------------------- MODULE TraceAhrs -------------------------------
(***************************************************************************)
(* Checks a recorded run of sensors and filters.  The specification state  *)
(* follows the observed one, so each call is judged on its own.            *)
(***************************************************************************)
EXTENDS Filters, Display, Json, IOUtils

Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)

NoAr == [init |-> FALSE]
NoAq == [init |-> FALSE, tried |-> FALSE]
NoDv == [init |-> FALSE]

VARIABLES l, sens, ar, aq, dv, made, bad
vars == <<l, sens, ar, aq, dv, made, bad>>

TokSeq(t, a, b) == SubSeq(t, a, b)

\* ---- sensors -----------------------------------------------------------------
SensorCall(ev) ==
  LET k == ev.i[1]
      st == sens[k]
  IN  CASE ev.op = "s_new" -> Out("no", {}, <<>>, Fresh.meas, FALSE)
        [] ev.op = "s_init" -> SInit(st, k, Chosen(ev.t))
        [] ev.op = "s_set" -> SSet(st, k, Chosen(ev.t))
        [] ev.op = "s_upd" -> SUpdate(st, k, ev.t)

\* ---- rate filter -----------------------------------------------------------------
ArInit(ev) ==    \* state after an accepted initialisation
  [init |-> TRUE, att |-> SubSeq(ev.t, 1, 4), ts |-> ev.t[5], cfg |-> SubSeq(ev.t, 6, 17),
   method |-> ev.i[1], order |-> ev.i[2]]
ArInitRefused(ev) == ArRefuses(ar.init, ev.t)

\* A sample that is nothing but the bias: no rotation at all.
Nil(c, raw) == \A k \in 1..3 : raw[k] = Bias(c, k)

\* Faults as pairs <<property, fault>>.
ArFaults(ev) ==
  LET p == ev.p
      refused == ev.s = "err"
      was == IF ar.init THEN ar.att ELSE <<>>
      kept == IF ar.init THEN p.ae = "" /\ p.a = was ELSE p.ae # "" /\ p.ae # "panic"
      only(prop, b, f) == IF b THEN {} ELSE {<<prop, f>>}
  IN
  IF ev.s = "panic" \/ p.ae = "panic" THEN {<<"F01", "panic">>, <<"F02", "panic">>}
  ELSE CASE ev.op = "ar_new" -> IF ev.s = "ok" /\ p.ae = "ARFilterNotInit" THEN {} ELSE {<<"F01", "new">>}
  [] ev.op = "ar_init" ->
       IF ArInitRefused(ev)
       THEN (IF refused THEN {} ELSE {<<"F01", "accepted">>})
            \cup (IF refused /\ ar.init /\ ev.e # "ARFilterAlreadyInit" THEN {<<"F01", "errkind">>} ELSE {})
            \cup (IF kept THEN {} ELSE {<<"F01", "attitude">>})
       ELSE (IF refused THEN {<<"F01", "refused">>} ELSE IF p.ae = "" /\ p.a = SubSeq(ev.t, 1, 4) THEN {} ELSE {<<"F01", "attitude">>})
  [] ev.op = "ar_upd" ->
       IF ~ar.init
       THEN (IF refused /\ ev.e = "ARFilterNotInit" THEN {} ELSE {<<"F01", "use before initialisation">>})
            \cup (IF kept THEN {} ELSE {<<"F01", "attitude">>})
       ELSE IF ~AllFin(ev.t)
       THEN (IF refused THEN {} ELSE {<<"F02", "accepted">>}) \cup (IF kept THEN {} ELSE {<<"F02", "attitude">>})
       ELSE LET w == CorrFx(ar.cfg, ev.t)
                q == FxV(ar.att)
                ts == FxOf(ar.ts)
                r == FxV(p.a)
            IN
            IF ~IsFin(ar.ts) \/ ~AllFin(ar.cfg) \/ ~Tame(w, 64 * ONE) \/ ~Tame(q, 4 * ONE) \/ DotFx(q, q) < 6000 \/ Abs(ts) > 2 * ONE
            THEN {}
            ELSE IF ~Tame(HalfTurn(w, ts), IF ar.method = 0 THEN 7 * ONE ELSE (3 * ONE) \div 2) \/ (ar.method # 0 /\ DotFx(q, q) > 4 * ONE)
            THEN only("F02", refused \/ UnitQ(r, 12) \/ (kept /\ (ar.method >= 3 \/ Tame(w, 7))), "unit")
            ELSE LET still == Tame(w, 5) /\ NormFx([k \in 1..3 |-> w[k] * 256]) <= 5 * 256
                     moving == ~Tame(w, 7)
                     \* the period is rounded to half a unit
                     slack == (IF DotFx(q, q) < 48000 THEN 30 ELSE 14) + (CHOOSE m \in {Abs(w[1]), Abs(w[2]), Abs(w[3])} : \A k \in 1..3 : Abs(w[k]) <= m) \div (2 * ONE) IN
            IF ar.method >= 3
            THEN IF still THEN (IF kept THEN {} ELSE {<<"F02", "attitude">>})
                 ELSE (IF moving /\ ~(refused /\ ev.e = "ARMethodError") THEN {<<"F02", "unsupported method">>} ELSE {})
                      \cup (IF kept THEN {} ELSE {<<"F02", "attitude">>})
            ELSE IF refused THEN {<<"F02", "refused">>, <<"F01", "refused">>}
            ELSE IF Nil(ar.cfg, ev.t) THEN (IF kept THEN {} ELSE {<<"F02", "moved">>})
            ELSE (IF UnitQ(r, 12) \/ (~moving /\ kept) THEN {} ELSE {<<"F02", "unit">>})
                 \cup (IF Same(r, Integrate(q, w, ts, ar.method, ar.order), slack) \/ (~moving /\ kept) THEN {} ELSE {<<"F02", "turn">>})
  [] ev.op = "ar_show" ->
       (IF ar.init = ~refused /\ (refused => ev.e = "ARFilterNotInit") THEN {} ELSE {<<"F01", "display">>})
       \cup (IF kept THEN {} ELSE {<<"F01", "attitude">>})
       \cup (IF "o" \notin DOMAIN p THEN {}
             ELSE IF refused THEN (IF p.o = <<>> THEN {} ELSE {<<"L07", "display">>})
             ELSE IF ar.init /\ Shown(4, 1, ar.att, p.o) THEN {} ELSE {<<"L07", "display">>})
  \* long runs at constant rate: direction * scale / 64 for count samples of period ts/64
  [] ev.op = "ar_hold" ->
       IF refused THEN {<<"F02", "refused">>}
       ELSE LET d == <<ev.i[2], ev.i[3], ev.i[4]>>
                half == Wrap(ev.i[1] * ev.i[5] * ev.i[6] * ev.i[7] * 8)
                s == Sin(half)
                x == <<Cos(half), Div(d[1] * s, ev.i[5] * ONE), Div(d[2] * s, ev.i[5] * ONE), Div(d[3] * s, ev.i[5] * ONE)>>
                q == FxV(SubSeq(ev.t, 1, 4))
                tol == CASE ev.i[8] = 0 -> 64 + ev.i[1] \div 12 [] ev.i[8] = 1 -> 96 + ev.i[1] \div 4 [] OTHER -> 128
            IN  (IF UnitQ(FxV(p.f), 12) THEN {} ELSE {<<"F02", "unit">>})
                \cup (IF Same(FxV(p.f), QMul(q, x), tol) THEN {} ELSE {<<"F02", "long run">>})

ArNext(ev) ==
  CASE ev.op = "ar_new" -> NoAr
    [] ev.op = "ar_init" -> IF ev.s = "ok" THEN [ArInit(ev) EXCEPT !.att = ev.p.a] ELSE ar
    [] ev.op = "ar_upd" -> IF ar.init /\ ev.p.ae = "" THEN [ar EXCEPT !.att = ev.p.a] ELSE ar
    [] OTHER -> ar

\* ---- AQUA ----------------------------------------------------------------------------
Cfg(ev, k) == AqCal(ev.t, k)
AqInit(ev) ==
  [init |-> TRUE, tried |-> TRUE, marg |-> ev.i[1] = 0,
   att |-> IF ev.i[2] = 15 THEN SubSeq(ev.t, 1, 4) ELSE <<OneT, Zero, Zero, Zero>>,
   par |-> [ts |-> FxOf(ev.t[5]), alpha |-> FxOf(ev.t[6]), beta |-> FxOf(ev.t[7]), t1 |-> FxOf(ev.t[8]), t2 |-> FxOf(ev.t[9]),
            ta |-> FxOf(ev.t[10]), tm |-> FxOf(ev.t[11]),
            g |-> IF ev.i[5] = 1 THEN FxOf(ev.t[12]) ELSE 642908,
            adaptive |-> ev.i[4] = 1],
   finite |-> AllFin(SubSeq(ev.t, 5, 11)) /\ (ev.i[5] = 0 \/ IsFin(ev.t[12])),
   \* thresholds and fractions the method can work with
   sound |-> /\ ev.i[4] = 0 \/ FxOf(ev.t[9]) > FxOf(ev.t[8])
             /\ \A k \in {10, 11} : FxOf(ev.t[k]) >= 0 /\ FxOf(ev.t[k]) <= ONE,
   fractions |-> \A k \in {6, 7} : FxOf(ev.t[k]) >= 0 /\ FxOf(ev.t[k]) <= ONE,
   cfg |-> [k \in 0..2 |-> IF k = 0 /\ ev.i[1] # 0 THEN <<>> ELSE Cfg(ev, k)]]
AqInitRefused(ev) == AqRefuses(aq.init, ev.i, ev.t)

AqConfigs(cfg, p) ==    \* configurations read back
  \A k \in 0..2 : IF cfg[k] = <<>> THEN p.ce[k + 1] = NotInit(k) ELSE p.ce[k + 1] = "" /\ p.c[k + 1] = cfg[k]

\* Any unit attitude that shows gravity as measured; for samples that leave the heading open.
AqFaults(ev) ==
  LET p == ev.p
      refused == ev.s = "err"
      kept == IF aq.init THEN p.ae = "" /\ p.a = aq.att ELSE p.ae # "" /\ p.ae # "panic"
      keepcfg == ~aq.init \/ AqConfigs(aq.cfg, p)
      only(prop, b, f) == IF b THEN {} ELSE {<<prop, f>>}
  IN
  IF ev.s = "panic" \/ p.ae = "panic" \/ \E k \in 1..3 : p.ce[k] = "panic"
  THEN {<<"F01", "panic">>, <<"F03", "panic">>, <<"F04", "panic">>, <<"F05", "panic">>}
  ELSE CASE ev.op = "aq_new" ->
         only("F01", ev.s = "ok" /\ p.ae = "AquaFilterNotInit" /\ \A k \in 0..2 : p.ce[k + 1] = NotInit(k), "new")
  [] ev.op = "aq_init" ->
       IF AqInitRefused(ev)
       THEN only("F01", refused, "accepted") \cup only("F01", kept, "attitude") \cup only("F01", keepcfg, "configuration")
            \cup only("F01", ~refused \/ ~aq.init \/ ev.e = "AquaFilterAlreadyInit", "errkind")
       ELSE LET n == AqInit(ev) IN
            IF refused THEN {<<"F01", "refused">>}
            ELSE only("F01", p.ae = "" /\ p.a = n.att, "attitude") \cup only("F01", AqConfigs(n.cfg, p), "configuration")
  [] ev.op = "aq_set" ->
       LET k == ev.i[1] IN
       only("F01", kept, "attitude")
       \cup (IF ~aq.init THEN {}
             ELSE IF aq.cfg[k] = <<>> \/ ~AllFin(ev.t)
             THEN only("F01", refused, "accepted") \cup only("F01", keepcfg, "configuration")
             ELSE only("F01", ~refused, "refused") \cup only("F01", refused \/ AqConfigs([aq.cfg EXCEPT ![k] = ev.t], p), "configuration"))
  [] ev.op = "aq_upd" ->
       IF ~aq.init
       THEN only("F01", refused /\ ev.e = "AquaFilterNotInit", "use before initialisation") \cup only("F01", kept, "attitude")
       ELSE LET P == IF aq.marg THEN "F04" ELSE "F03"
                given == SubSeq(ev.t, 1, 3)
                araw == SubSeq(ev.t, 4, 6)
                mraw == SubSeq(ev.t, 7, 9)
                wrong == BadSample(aq.marg, ev.i[1], ev.t)
                r == FxV(p.a)
            IN
            only("F01", keepcfg, "configuration") \cup
            (IF refused THEN only(P, kept, "attitude") ELSE {}) \cup
            (IF wrong THEN only(P, refused, "accepted")
             ELSE IF ~aq.finite THEN {}
             ELSE
             LET a == CorrFx(aq.cfg[1], araw)
                 m == CorrFx(aq.cfg[2], mraw)
                 q == FxV(aq.att)
                 \* directions of small vectors are known if the vectors are
                 least(c, raw) == IF \A k \in 1..3 : Crisp(c, k, raw) THEN 600 ELSE 8000
                 weak == ~Tame(a, 1024 * ONE) \/ ~Tame(m, 1024 * ONE)
                         \/ (Tame(a, least(aq.cfg[1], araw)) /\ ~Tame(a, 0)) \/ (Tame(m, least(aq.cfg[2], mraw)) /\ ~Tame(m, 0))
                 nofield == Tame(m, 0)
                 noacc == Tame(a, 0)
             IN
             IF weak \/ ~Tame(q, 4 * ONE) \/ DotFx(q, q) < 6000 \/ Abs(aq.par.ts) > ONE \/ Abs(aq.par.g) > 64 * ONE \/ aq.par.g < ONE \div 2
                \/ (aq.marg /\ aq.par.adaptive /\ ~Tame(<<aq.par.t1, aq.par.t2>>, 256 * ONE)) THEN {}
             ELSE IF aq.marg /\ ~aq.sound THEN only("F04", refused, "accepted")
             ELSE IF aq.marg /\ ~aq.fractions THEN {}
             ELSE IF nofield THEN only(P, refused, "accepted")
             ELSE IF noacc THEN only(P, refused \/ UnitQ(r, 12), "unit")
             ELSE LET ad == Dir(a)
                      md == Dir(m)
                      far == Sin2(ad, md) > 400
                  IN
             IF aq.marg
             THEN LET w == CorrFx(aq.cfg[0], given) IN
                  IF ~Tame(w, 16 * ONE) THEN {}
                  ELSE IF ~Steady(q, w, a, m, aq.par, 2500) THEN only("F04", refused \/ UnitQ(r, 12), "unit")
                  ELSE IF refused THEN {<<"F04", "refused">>, <<"F01", "refused">>}
                  ELSE only("F04", UnitQ(r, 12), "unit") \cup only("F05", UnitQ(r, 12), "unit")
                       \cup LET sharp == /\ Steady(q, w, a, m, aq.par, 16000)
                                         /\ aq.par.adaptive => Gain(aq.par.alpha, a, aq.par.g, aq.par.t1, aq.par.t2) \in {0, aq.par.alpha}
                                tol == IF sharp THEN 32 ELSE 72
                            IN  only("F04", \E x \in MargSteps(q, w, a, m, aq.par) : Same(r, x, tol), "step")
             ELSE IF ~far THEN only("F03", refused \/ (UnitQ(r, 12) /\ Level(r, ad, 20)), "gravity")
             ELSE IF refused THEN {<<"F03", "refused">>, <<"F01", "refused">>}
             ELSE only("F03", UnitQ(r, 12), "unit")
                  \cup (IF ~Tame(r, 2 * ONE) THEN {}
                        ELSE only("F03", Level(r, ad, 20), "gravity") \cup only("F03", North(r, md, 20), "north")))
  [] ev.op = "aq_conv" ->
       IF refused THEN {<<"F05", "refused">>}
       ELSE only("F05", p.dev <= 12 /\ UnitQ(FxV(p.f), 12) /\ UnitQ(FxV(p.am), 12), "unit")
            \cup only("F05", Same(FxV(p.f), FxV(p.am), 24), "limit")

AqNext(ev) ==
  CASE ev.op = "aq_new" -> NoAq
    [] ev.op = "aq_init" -> IF ev.s = "ok" THEN [AqInit(ev) EXCEPT !.att = ev.p.a] ELSE [aq EXCEPT !.tried = TRUE]
    [] ev.op = "aq_set" -> IF aq.init /\ ev.s = "ok" THEN [aq EXCEPT !.cfg[ev.i[1]] = ev.t] ELSE aq
    [] ev.op = "aq_upd" -> IF aq.init /\ ev.p.ae = "" THEN [aq EXCEPT !.att = ev.p.a] ELSE aq
    [] OTHER -> aq

\* ---- Davenport ----------------------------------------------------------------------------
DvFaults(ev) ==
  LET refused == ev.s = "err" IN
  IF ev.s = "panic" THEN {<<"F01", "panic">>}
  ELSE CASE ev.op = "dv_new" -> IF refused THEN {<<"F01", "new">>} ELSE {}
    [] ev.op = "dv_init" ->
         IF dv.init THEN IF refused /\ ev.e = "DavenportFilterAlreadyInit" THEN {} ELSE {<<"F01", "accepted">>}
         ELSE IF NoWeight(ev.t[1]) \/ NoWeight(ev.t[2])
         THEN IF refused /\ ev.e = "InvalidDavenportWeights" THEN {} ELSE {<<"F01", "accepted">>}
         ELSE IF Weight(ev.t[1]) /\ Weight(ev.t[2]) /\ refused THEN {<<"F01", "refused">>} ELSE {}
    [] ev.op = "dv_upd" ->
         IF ~dv.init THEN IF refused /\ ev.e = "DavenportFilterNotInit" THEN {} ELSE {<<"F01", "use before initialisation">>}
         ELSE IF ~AllFin(ev.t) THEN (IF refused THEN {} ELSE {<<"F01", "accepted">>})
         ELSE IF refused THEN {<<"F01", "refused">>} ELSE {}

DvNext(ev) == CASE ev.op = "dv_new" -> NoDv
                [] ev.op = "dv_init" -> IF ev.s = "ok" THEN [init |-> TRUE] ELSE dv
                [] OTHER -> dv

\* ---- generated attitudes ----------------------------------------------------------------------
\* made[n]: the attitudes seen for count n.
RndFaults(ev) ==
  LET n == ev.i[1]
      c == ev.p.f
      q == TLCEval([k \in 1..Len(c) |-> FxV(c[k])])
  IN  IF ev.s = "panic" THEN {"panic"}
      ELSE IF n \notin 1..4 THEN IF ev.s = "err" THEN {} ELSE {"accepted"}
      ELSE IF ev.s = "err" THEN {"refused"}
      ELSE IF Len(c) # n \/ \E k \in 1..n : ~UnitQ(q[k], 12) THEN {"unit"}
      ELSE (IF InSteps(q, 16) THEN {} ELSE {"step"})
           \cup (IF n = 1 \/ ~OneAxis(q, 8) THEN {} ELSE {"one axis"})
           \cup (IF made[n] \in {<<>>, c} THEN {} ELSE {"repeated"})

\* ------------------------------------------------------------------------------------------------
Family(ev) == SubSeq(ev.op, 1, 2)

Panicked(ev) ==
  \/ ev.s = "panic"
  \/ Family(ev) = "s_" /\ (ev.p.ce = "panic" \/ \E j \in 1..3 : ev.p.me[j] = "panic")
  \/ ev.op \in {"ar_new", "ar_init", "ar_upd", "ar_show", "aq_new", "aq_init", "aq_set", "aq_upd"} /\ ev.p.ae = "panic"
  \/ ev.op \in {"aq_new", "aq_init", "aq_set", "aq_upd"} /\ \E k \in 1..3 : ev.p.ce[k] = "panic"

\* Which families speak about a property.
Concerned == CASE Prop = "S01" -> {"s_"} [] Prop = "F01" -> {"ar", "aq", "dv"} [] Prop \in {"F02", "L07"} -> {"ar"}
               [] Prop \in {"F03", "F04", "F05"} -> {"aq"} [] Prop = "F06" -> {"rn"} [] OTHER -> {}
Faults(ev) ==
  LET all == CASE Family(ev) = "s_" -> {<<"S01", f>> : f \in SensorFaults(sens[ev.i[1]], ev.i[1], SensorCall(ev), ev.s, ev.e, ev.p)}
               [] Family(ev) = "ar" -> ArFaults(ev)
               [] Family(ev) = "aq" -> AqFaults(ev)
               [] Family(ev) = "dv" -> DvFaults(ev)
               [] Family(ev) = "rn" -> {<<"F06", f>> : f \in RndFaults(ev)}
  IN  IF Prop = "L06" THEN (IF Panicked(ev) THEN {"panic"} ELSE {})
      ELSE IF Family(ev) \notin Concerned THEN {}
      ELSE {x[2] : x \in {y \in all : y[1] = Prop}}

Init ==
  /\ l = 1
  /\ sens = [k \in 0..2 |-> Fresh]
  /\ ar = NoAr /\ aq = NoAq /\ dv = NoDv
  /\ made = [n \in 1..4 |-> <<>>]
  /\ bad = {}

Step ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l]
         faults == IF "undecided" \in DOMAIN ev THEN {} ELSE Faults(ev)
     IN  /\ bad' = faults
         /\ (faults # {} => PrintT(<<"REJECT", l, ev.op, faults>>))
         /\ sens' = IF Family(ev) # "s_" THEN sens
                    ELSE [sens EXCEPT ![ev.i[1]] = IF ev.op = "s_new" THEN Fresh ELSE SObserved(@, ev.p)]
         /\ ar' = IF Family(ev) = "ar" THEN ArNext(ev) ELSE ar
         /\ aq' = IF Family(ev) = "aq" THEN AqNext(ev) ELSE aq
         /\ dv' = IF Family(ev) = "dv" THEN DvNext(ev) ELSE dv
         /\ made' = IF Family(ev) = "rn" /\ ev.s = "ok" /\ ev.i[1] \in 1..4 THEN [made EXCEPT ![ev.i[1]] = ev.p.f] ELSE made
         /\ l' = l + 1

Spec == Init /\ [][Step]_vars

Complete == TLCGet("stats").diameter = Len(Trace) + 1
===============================================================================
