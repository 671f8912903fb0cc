---------------------------------- MODULE Loss --------------------------------
(* Force equilibrium loss of the material model finder (C15). A specimen is a  *)
(* regular mesh of bricks under a homogeneous strain history; two regions have *)
(* their own material (elastic, or perfectly plastic in shear), so stresses,   *)
(* internal forces and losses are exact integers (forces in units of one       *)
(* stress level times 2^-(Dim-1) times the length unit squared). The derivative *)
(* of the loss by each material parameter is exact as well (C28): every stress *)
(* carries its sensitivity to the stiffness and yield level of its material.   *)
(* With arbitrary nodal displacements ("field") the forces of the elastic       *)
(* bricks are exact as well, in units of 1/12 (plane) or 1/36: Field.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Dim, NX, NY, NZ,   \* elements along each axis (NZ = 1 in 2D)
          Kind,              \* "elastic": any strain; "shear": perfect plasticity, shear strains;
                             \* "field": elastic, every node moves on its own (path: nodal displacements)
          NMat,              \* 1 or 2 materials
          NTime, Sim
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S
Ix == 1..Dim
El == IF Dim = 2 THEN {<<i, j, 1>> : i \in 1..NX, j \in 1..NY}
      ELSE {<<i, j, k>> : i \in 1..NX, j \in 1..NY, k \in 1..NZ}
Nd == IF Dim = 2 THEN {<<i, j, 0>> : i \in 0..NX, j \in 0..NY}
      ELSE {<<i, j, k>> : i \in 0..NX, j \in 0..NY, k \in 0..NZ}
Pairs == IF Dim = 2 THEN {<<1, 1>>, <<2, 2>>, <<1, 2>>} ELSE {<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 3>>, <<1, 3>>}
Key(i, j) == IF i <= j THEN <<i, j>> ELSE <<j, i>>
Shears == {p \in Pairs : p[1] # p[2]}

VARIABLES size,              \* element size along each axis (even)
          mats,              \* stiffness factor and yield level of each material
          region,            \* elements with first index > region have material 2
          shear,             \* the shear component of a "shear" history
          path, sig,         \* strain history (levels), stress of each material at each time
          sen,               \* sensitivity of that stress to the stiffness g and yield level y of its material
          kink,              \* some stress was exactly at the yield limit: not differentiable
          frc,               \* nodal forces of a "field" at every time
          R, L, W, sc, nrm,  \* recorded reactions, set labels, time weights, scaling, force ranges
          stage
vars == <<size, mats, region, shear, path, sig, sen, kink, frc, R, L, W, sc, nrm, stage>>

Strains == IF Kind = "elastic" THEN [Pairs -> -2..2]
           ELSE {[p \in Pairs |-> IF p = shear THEN x ELSE 0] : x \in -6..6}
ZeroT == [p \in Pairs |-> 0]
MatOf(e) == IF NMat = 2 /\ e[1] > region THEN 2 ELSE 1

\* TLC draws one simulated initial state per element of the pool, so sampled runs start differently
Pool == IF Sim THEN 1..256 ELSE {1}
Init == \E pool \in Pool :
  /\ size \in Choice([Ix -> IF Kind = "field" /\ Dim = 3 THEN {2} ELSE {2, 4}])
  /\ mats \in Choice([1..2 -> [g : {1, 2}, y : IF Kind = "field" THEN {0, 1, 2} ELSE {2, 3, 5}]])
  /\ region \in Choice(1..NX)
  /\ shear \in Choice(Shears)
  /\ path = (IF Kind = "field" THEN <<>> ELSE <<ZeroT>>) /\ frc = <<>> /\ sig = <<[m \in 1..2 |-> ZeroT]>>
  /\ sen = <<[q \in {"g", "y"} |-> [m \in 1..2 |-> ZeroT]]>> /\ kink = FALSE
  /\ R = <<>> /\ L = <<>> /\ W = <<>> /\ sc = 1 /\ nrm = <<>> /\ stage = "load"

\* one time step: each material responds from its own stress
Step == \E e \in (IF Kind = "field" THEN {} ELSE Choice(Strains)) :
  /\ stage = "load" /\ Len(path) < NTime
  /\ path' = Append(path, e)
  /\ LET old == path[Len(path)]
         s == sig[Len(sig)]
         d == sen[Len(sen)]
         trial == [m \in 1..2 |-> [p \in Pairs |-> IF Kind = "elastic" THEN mats[m].g * e[p]
                                                   ELSE s[m][p] + mats[m].g * (e[p] - old[p])]]
         lim(m, p) == IF Kind = "elastic" THEN 0 ELSE IF trial[m][p] > mats[m].y THEN 1
                      ELSE IF trial[m][p] < -mats[m].y THEN -1 ELSE 0
     IN /\ sig' = Append(sig, [m \in 1..2 |-> [p \in Pairs |-> IF lim(m, p) = 0 THEN trial[m][p]
                                                               ELSE lim(m, p) * mats[m].y]])
        /\ sen' = Append(sen, [q \in {"g", "y"} |-> [m \in 1..2 |-> [p \in Pairs |->
             IF lim(m, p) # 0 THEN (IF q = "y" THEN lim(m, p) ELSE 0)
             ELSE IF Kind = "elastic" THEN (IF q = "g" THEN e[p] ELSE 0)
             ELSE d[q][m][p] + (IF q = "g" THEN e[p] - old[p] ELSE 0)]]])
        /\ kink' = (kink \/ (Kind = "shear" /\ \E m \in 1..2, p \in Pairs : trial[m][p] \in {mats[m].y, -mats[m].y}))
  /\ UNCHANGED <<size, mats, region, shear, frc, R, L, W, sc, nrm, stage>>

RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSet(f, S \ {x})
\* face area normal to axis j, and which side of element e node v lies on (0: not a node of e)
Area(j) == IF Dim = 2 THEN size[3 - j] ELSE LET o == Ix \ {j} IN LET a == CHOOSE x \in o : TRUE IN
           LET b == CHOOSE x \in o \ {a} : TRUE IN size[a] * size[b]
Side(e, v, j) == IF v[j] = e[j] THEN 1 ELSE IF v[j] = e[j] - 1 THEN -1 ELSE 0
Touch(e, v) == \A j \in Ix : Side(e, v, j) # 0
\* internal force at node v along axis i of the stress s[m] in the elements E (times 2^(Dim-1))
ForceOf(s, E, v, i) == SumSet([e \in E |-> IF Touch(e, v)
     THEN SumSet([j \in Ix |-> s[MatOf(e)][Key(i, j)] * Side(e, v, j) * Area(j)], Ix) ELSE 0], E)
\* "field": the integral over a brick of the derivatives along p and q of the shape functions of its nodes
\* a and b, times 6^(Dim-1) times 2 (plane) or 1 (mu = g, lambda = y of the material)
Den == IF Dim = 2 THEN 12 ELSE 36
Line(e, a, b, p, q, k) ==      \* factor of axis k, as numerator over 6 * size[k]
  LET s == Side(e, a, k)
      z == Side(e, b, k)
  IN IF k = p /\ k = q THEN 6 * s * z
     ELSE IF k = p THEN 3 * s * size[k]
     ELSE IF k = q THEN 3 * z * size[k]
     ELSE (IF s = z THEN 2 ELSE 1) * size[k] * size[k]
Prod(e, a, b, p, q) == IF Dim = 2 THEN (Line(e, a, b, p, q, 1) * Line(e, a, b, p, q, 2) * 12) \div (36 * size[1] * size[2])
                       ELSE (Line(e, a, b, p, q, 1) * Line(e, a, b, p, q, 2) * Line(e, a, b, p, q, 3) * 36) \div (216 * size[1] * size[2] * size[3])
Nodes(e) == {v \in Nd : Touch(e, v)}
Stiff(e, a, i, b, j) == LET m == mats[MatOf(e)] IN
  m.y * Prod(e, a, b, i, j) + m.g * Prod(e, a, b, j, i) + (IF i = j THEN m.g * SumSet([k \in Ix |-> Prod(e, a, b, k, k)], Ix) ELSE 0)
Field(u, v, i) == LET E == {e \in El : Touch(e, v)} IN
  SumSet([e \in E |-> LET D == Nodes(e) \X Ix IN SumSet([d \in D |-> IF u[d] = 0 THEN 0 ELSE Stiff(e, v, i, d[1], d[2]) * u[d]], D)], E)
Force(v, i, t) == IF Kind = "field" THEN frc[t][<<v, i>>] ELSE ForceOf(sig[t], El, v, i)
\* its derivative by the parameter q of material m
DForce(v, i, t, q, m) == ForceOf(sen[t][q], {e \in El : MatOf(e) = m}, v, i)
DOF == Nd \X Ix
\* every node moves on its own
Move == /\ stage = "load" /\ Kind = "field" /\ Len(path) < NTime
        /\ \E u \in {TLCEval([d \in DOF |-> IF Len(path) = 0 THEN 0 ELSE RandomElement(-1..1)])} :
             /\ path' = Append(path, u)
             /\ frc' = Append(frc, TLCEval([d \in DOF |-> Field(u, d[1], d[2])]))
        /\ UNCHANGED <<size, mats, region, shear, sig, sen, kink, R, L, W, sc, nrm, stage>>

\* constrained degrees of freedom: label per (node, axis); labels are per axis (sets)
Labels == \E kind \in Choice({"none", "faces", "all", "mixed", "faces"}), a \in Choice(0..6) :
  L' = [d \in DOF |-> LET v == d[1]
                          i == d[2]
                          bnd == \E j \in Ix : v[j] = 0 \/ v[j] = (IF j = 1 THEN NX ELSE IF j = 2 THEN NY ELSE NZ)
                      IN CASE kind = "none" -> 0
                           [] kind = "all" -> i + Dim * (v[1] % 2)
                           [] kind = "faces" -> IF v[1] = 0 THEN i ELSE IF v[1] = NX THEN Dim + i ELSE 0
                           [] kind = "mixed" -> IF bnd /\ (v[1] + 2 * v[2] + a * i) % 3 # 0
                                                THEN i + Dim * ((v[1] + v[2] * a) % 3) ELSE 0]
\* recorded reactions: those of the material, plus an error at some degrees of freedom
Record == /\ stage = "load" /\ Len(path) = NTime
          /\ Labels
          /\ \E off \in Choice({0, 0, 1, 3}), b \in Choice(1..5) :
               R' = [t \in 1..NTime |-> [d \in DOF |-> Force(d[1], d[2], t) +
                       (IF off = 0 THEN 0 ELSE off * (((b * t + d[1][1] + 2 * d[1][2] * b + d[2]) % 5) - 2))]]
          /\ \E w \in Choice([1..5 -> IF Kind = "field" THEN 0..1 ELSE 0..2]) : W' = [t \in 1..NTime |-> w[((t - 1) % 5) + 1]]
          /\ sc' \in Choice(IF Kind = "field" /\ Dim = 3 THEN {1} ELSE {1, 3})
          /\ nrm' \in Choice({<<>>} \cup IF Kind = "field" /\ Dim = 3 THEN {} ELSE {[i \in Ix |-> [lo |-> l[i], w |-> w[i]]] :
                                           l \in [Ix -> {-7, 0, 5}], w \in [Ix -> {1, 2}]})
          /\ stage' = "done"
          /\ UNCHANGED <<size, mats, region, shear, path, sig, sen, kink, frc>>
Next == Step \/ Move \/ Record
Spec == Init /\ [][Next]_vars

\* the loss: imbalance at every free degree of freedom, and at every constrained one (pointwise) or
\* summed over every boundary set; force components are scaled when ranges are given
Scale(i) == IF nrm = <<>> THEN 1 ELSE nrm[i].w
Imb(d, t) == Scale(d[2]) * (Force(d[1], d[2], t) - (IF L[d] = 0 THEN 0 ELSE R[t][d]))
Free == {d \in DOF : L[d] = 0}
Sets == {L[d] : d \in DOF} \ {0}
SqFree(t) == SumSet([d \in Free |-> Imb(d, t) * Imb(d, t)], Free)
SqPoint(t) == LET C == DOF \ Free IN SumSet([d \in C |-> Imb(d, t) * Imb(d, t)], C)
SqSets(t) == SumSet([s \in Sets |-> LET D == {d \in DOF : L[d] = s}
                                        x == SumSet([d \in D |-> Imb(d, t)], D) IN x * x], Sets)
Times == 1..NTime
Loss(type) == sc * SumSet([t \in Times |-> W[t] * (SqFree(t) + IF type = "pointwise" THEN SqPoint(t)
                                                             ELSE SqSets(t))], Times)
\* derivative of the loss by the parameter q of material m
DImb(d, t, q, m) == Scale(d[2]) * DForce(d[1], d[2], t, q, m)
DLoss(type, q, m) == 2 * sc * SumSet([t \in Times |-> W[t] *
  (SumSet([d \in (IF type = "pointwise" THEN DOF ELSE Free) |-> Imb(d, t) * DImb(d, t, q, m)],
          IF type = "pointwise" THEN DOF ELSE Free)
   + IF type = "pointwise" THEN 0 ELSE
     SumSet([s \in Sets |-> LET D == {d \in DOF : L[d] = s} IN
       SumSet([d \in D |-> Imb(d, t)], D) * SumSet([d \in D |-> DImb(d, t, q, m)], D)], Sets))], Times)
Grads == IF kink THEN <<>> ELSE
  [type \in {"pointwise", "dirichlet_sets"} |-> [q \in {"g", "y"} |-> [m \in 1..2 |-> DLoss(type, q, m)]]]
\* design: an elastic loss is quadratic in the stiffness, without constant term when nothing is recorded
Homogeneous == stage = "done" /\ Kind = "elastic" /\ Free = DOF /\ NMat = 1 =>
  DLoss("pointwise", "g", 1) * mats[1].g = 2 * Loss("pointwise")
\* design: exact reactions leave only the free imbalance; a single material leaves none in the interior
Equilibrium == stage = "done" =>
  /\ (\A t \in Times : SqFree(t) >= 0)
  /\ (NMat = 1 /\ Kind # "field" => \A t \in Times, v \in Nd, i \in Ix :
        (\A j \in Ix : 0 < v[j] /\ v[j] < (IF j = 1 THEN NX ELSE IF j = 2 THEN NY ELSE NZ)) => Force(v, i, t) = 0)
  /\ \A t \in Times, i \in Ix : SumSet([v \in Nd |-> Force(v, i, t)], Nd) = 0
EmitG == stage = "done" => PrintT("@@" \o ToJson([
  size |-> size, mats |-> mats, region |-> region,
  path |-> [t \in Times |-> {[c |-> p, v |-> path[t][p]] : p \in Pairs}],
  sig |-> [t \in Times |-> [m \in 1..2 |-> {[c |-> p, v |-> sig[t][m][p]] : p \in Pairs}]],
  F |-> [t \in Times |-> {[d |-> d, v |-> Force(d[1], d[2], t)] : d \in DOF}],
  R |-> [t \in Times |-> {[d |-> d, v |-> R[t][d]] : d \in DOF}],
  L |-> {[d |-> d, v |-> L[d]] : d \in DOF}, W |-> W, sc |-> sc, nrm |-> nrm, grad |-> Grads,
  loss |-> [pointwise |-> Loss("pointwise"), dirichlet_sets |-> Loss("dirichlet_sets")]]))
Emit == stage = "done" => PrintT("@@" \o ToJson([
  size |-> size, mats |-> mats, region |-> region,
  path |-> [t \in Times |-> {[c |-> p, v |-> path[t][p]] : p \in Pairs}],
  sig |-> [t \in Times |-> [m \in 1..2 |-> {[c |-> p, v |-> sig[t][m][p]] : p \in Pairs}]],
  F |-> [t \in Times |-> {[d |-> d, v |-> Force(d[1], d[2], t)] : d \in DOF}],
  R |-> [t \in Times |-> {[d |-> d, v |-> R[t][d]] : d \in DOF}],
  L |-> {[d |-> d, v |-> L[d]] : d \in DOF}, W |-> W, sc |-> sc, nrm |-> nrm,
  free |-> [t \in Times |-> SqFree(t)], point |-> [t \in Times |-> SqPoint(t)],
  sets |-> [t \in Times |-> SqSets(t)],
  loss |-> [pointwise |-> Loss("pointwise"), dirichlet_sets |-> Loss("dirichlet_sets")]]))
\* a rigid translation needs no force; forces are symmetric in their work (reciprocity) by the symmetry of Stiff
Rigid == stage = "done" /\ Kind = "field" => \A e \in El : \A a \in Nodes(e), b \in Nodes(e), i \in Ix, j \in Ix :
  /\ Stiff(e, a, i, b, j) = Stiff(e, b, j, a, i)
  /\ SumSet([v \in Nodes(e) |-> Stiff(e, a, i, v, j)], Nodes(e)) = 0
EmitField == stage = "done" => PrintT("@@" \o ToJson([
  size |-> size, mats |-> mats, region |-> region, den |-> Den,
  path |-> [t \in Times |-> {[d |-> d, v |-> path[t][d]] : d \in DOF}],
  F |-> [t \in Times |-> {[d |-> d, v |-> frc[t][d]] : d \in DOF}],
  R |-> [t \in Times |-> {[d |-> d, v |-> R[t][d]] : d \in DOF}],
  L |-> {[d |-> d, v |-> L[d]] : d \in DOF}, W |-> W, sc |-> sc, nrm |-> nrm,
  free |-> [t \in Times |-> SqFree(t)], point |-> [t \in Times |-> SqPoint(t)],
  sets |-> [t \in Times |-> SqSets(t)],
  loss |-> [pointwise |-> Loss("pointwise"), dirichlet_sets |-> Loss("dirichlet_sets")]]))
===============================================================================
