-------------------------------- MODULE MC_Wander --------------------------------
(***************************************************************************)
(* The generator of attitudes with its random targets replaced by a choice *)
(* among the Hurwitz quaternions: from the identity, each attitude moves   *)
(* towards a target by the step angle at most.  Whatever is chosen, the    *)
(* judgement of recorded attitudes accepts the walk, and rejects it when   *)
(* one attitude is left out on the way.                                    *)
(***************************************************************************)
EXTENDS Filters

CONSTANT Count

VARIABLES walk, axes
Pm == {-1, 1}
Units == {<<s * ONE, 0, 0, 0>> : s \in Pm} \cup {<<0, s * ONE, 0, 0>> : s \in Pm}
         \cup {<<0, 0, s * ONE, 0>> : s \in Pm} \cup {<<0, 0, 0, s * ONE>> : s \in Pm}
         \cup {<<a * HALF, b * HALF, c * HALF, d * HALF>> : a \in Pm, b \in Pm, c \in Pm, d \in Pm}
At == IF walk = <<>> THEN IdQ ELSE walk[Len(walk)]
Opposite(q, g) == NormFx(AddV(q, g)) < 2 * STEP

Init == walk = <<>> /\ axes = {}
Next == /\ Len(walk) < Count
        /\ \E g \in {x \in Units : ~Opposite(At, x)} :
             /\ walk' = Append(walk, TLCEval(Towards(At, g)))
             /\ axes' = axes \cup {IF g = IdQ THEN IdQ ELSE <<0, Abs(g[2]), Abs(g[3]), Abs(g[4])>>}
Spec == Init /\ [][Next]_<<walk, axes>>

Unit == \A k \in 1..Len(walk) : UnitQ(walk[k], 24)
Judged == InSteps(walk, 16)
\* Leaving an attitude out makes a step too long, unless the walk turned back.
Straight == Len(walk) = 2 /\ NormFx(SubV(walk[2], IdQ)) > STEP + 400
Noticed == Straight => ~InSteps(<<walk[2]>>, 16)
\* Targets on one great circle with the identity leave one axis, two steps towards different axes do not.
Axis == /\ Len(walk) >= 2 /\ axes \in {{<<0, ONE, 0, 0>>}, {<<0, 0, ONE, 0>>}, {<<0, 0, 0, ONE>>}} => OneAxis(walk, 8)
        /\ Len(walk) = 2 /\ axes = {<<0, ONE, 0, 0>>, <<0, 0, ONE, 0>>} => ~OneAxis(walk, 8)
===============================================================================
