-------------------------------- MODULE Patch ---------------------------------
(* Material patches on a regular grid (C18): nodes, elements, boundary sets,    *)
(* prescribed boundary displacements, and the mesh handed to the simulator      *)
(* (with elements removed). Lengths are integers; displacements are rationals   *)
(* <<numerator, den>> with one den per patch.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Type, Sim, MaxElem
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S
Dim == IF Type \in {"SHEXA8", "SHEXA20"} THEN 3 ELSE 2
Ax == 1..Dim
\* nodes on an element edge, and whether the element has interior nodes
P == CASE Type \in {"SQUAD4", "LQUAD4", "SHEXA8"} -> 2 [] Type \in {"SQUAD8", "LQUAD9", "SHEXA20"} -> 3 [] OTHER -> 4
Full == Type \in {"LQUAD4", "LQUAD9", "LQUAD16"}

\* order of the nodes of an element: position of node p in the element (in steps)
RingQuad(p) == LET m == P - 1  s == p - 1 IN      \* counter-clockwise along the boundary
  IF s < m THEN <<s, 0>> ELSE IF s < 2 * m THEN <<m, s - m>> ELSE IF s < 3 * m THEN <<3 * m - s, m>> ELSE <<0, 4 * m - s>>
Corner3(p) == <<IF p \in {2, 3, 6, 7} THEN 1 ELSE 0, IF p \in {3, 4, 7, 8} THEN 1 ELSE 0, IF p > 4 THEN 1 ELSE 0>>
Edge3(p) == \* mid-edge nodes: bottom ring, verticals, top ring
  LET ring == <<<<1, 0>>, <<2, 1>>, <<1, 2>>, <<0, 1>>>>  vert == <<<<0, 0>>, <<2, 0>>, <<2, 2>>, <<0, 2>>>>
      q == ((p - 9) % 4) + 1
  IN IF p <= 12 THEN <<ring[q][1], ring[q][2], 0>> ELSE IF p <= 16 THEN <<vert[q][1], vert[q][2], 1>> ELSE <<ring[q][1], ring[q][2], 2>>
Pos(p) == IF Full THEN <<(p - 1) % P, (p - 1) \div P>>
          ELSE IF Dim = 2 THEN RingQuad(p)
          ELSE IF p <= 8 THEN [a \in Ax |-> (P - 1) * Corner3(p)[a]] ELSE Edge3(p)
NPos == IF Full THEN P * P ELSE IF Dim = 2 THEN 4 * (P - 1) ELSE IF P = 2 THEN 8 ELSE 20

VARIABLES ne, size, cd, turn, shift, order, amp, gone, kind, stage
vars == <<ne, size, cd, turn, shift, order, amp, gone, kind, stage>>

\* grid: N[a] node lines along axis a; a grid point is the number of its position, first axis fastest
N == [a \in Ax |-> ne[a] * (P - 1) + 1]
RECURSIVE Prod(_, _)
Prod(f, k) == IF k = 0 THEN 1 ELSE f[k] * Prod(f, k - 1)
Total == Prod(N, Dim)
At(g) == [a \in Ax |-> (g \div Prod(N, a - 1)) % N[a]]
Num(ix) == LET RECURSIVE F(_) F(a) == IF a > Dim THEN 0 ELSE ix[a] * Prod(N, a - 1) + F(a + 1) IN F(1)
OffLine(ix) == {a \in Ax : ix[a] % (P - 1) # 0}
Exists(g) == Full \/ Cardinality(OffLine(At(g))) <= 1
NodeSeq == SelectSeq([g \in 1..Total |-> g - 1], Exists)
LabelOf == LET s == NodeSeq IN [g \in {s[i] : i \in 1..Len(s)} |-> CHOOSE i \in 1..Len(s) : s[i] = g]
Ends(ix) == {a \in Ax : ix[a] = 0 \/ ix[a] = N[a] - 1}

\* elements, first axis fastest
NElem == Prod(ne, Dim)
Origin(e) == [a \in Ax |-> (P - 1) * (((e - 1) \div Prod(ne, a - 1)) % ne[a])]
ElemNodes(L, e) == [p \in 1..NPos |-> L[Num([a \in Ax |-> Origin(e)[a] + Pos(p)[a]])]]

-------------------------------------------------------------------------------
(* Deformation: corner displacements, then a rigid motion about the centroid.  *)
Corners == 1..(IF Dim = 2 THEN 4 ELSE 8)
Side(c) == [a \in Ax |-> Corner3(c)[a]]
Ref(c) == [a \in Ax |-> Side(c)[a] * size[a]]
\* an edge of order zero keeps its direction: its ends share the displacement across it (planar patches)
Partner(c, a) == CHOOSE d \in Corners : \A b \in Ax : (Side(d)[b] = Side(c)[b]) <=> (b # a)
\* doubled displacements, so that the average is an integer
Disp2(c) == [a \in Ax |-> IF order = 0 /\ Dim = 2 THEN cd[c][a] + cd[Partner(c, 3 - a)][a] ELSE 2 * cd[c][a]]
Def2(c) == [a \in Ax |-> 2 * Ref(c)[a] + Disp2(c)[a]]
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
\* centroid as <<numerators, denominator>> (of the doubled coordinates)
Area2 == Cross(Def2(1), Def2(2)) + Cross(Def2(2), Def2(3)) + Cross(Def2(3), Def2(4)) + Cross(Def2(4), Def2(1))
Quad(c) == LET d == IF c = 4 THEN 1 ELSE c + 1 IN [a \in Ax |-> (Def2(c)[a] + Def2(d)[a]) * Cross(Def2(c), Def2(d))]
RECURSIVE VSum(_, _)
VSum(f, k) == IF k = 0 THEN [a \in Ax |-> 0] ELSE LET r == VSum(f, k - 1) IN [a \in Ax |-> f[k][a] + r[a]]
CentroidNum == IF Dim = 2 THEN VSum([c \in Corners |-> Quad(c)], 4) ELSE VSum([c \in Corners |-> Def2(c)], 8)
CentroidDen == IF Dim = 2 THEN 3 * Area2 ELSE 8
\* simple counter-clockwise quadrilateral (no three corners aligned: otherwise not asked)
Orient(i, j, k) == LET u == [a \in Ax |-> Def2(j)[a] - Def2(i)[a]]  v == [a \in Ax |-> Def2(k)[a] - Def2(i)[a]] IN Cross(u, v)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Clear == Dim = 3 \/ \A i, j, k \in Corners : Cardinality({i, j, k}) = 3 => Orient(i, j, k) # 0
\* no edge is perpendicular to where it was
Straight == \A c, d \in Corners : \A a \in Ax : d = Partner(c, a) => Def2(c)[a] # Def2(d)[a]
Hit(i, j, k, l) == Sgn(Orient(i, j, k)) # Sgn(Orient(i, j, l)) /\ Sgn(Orient(k, l, i)) # Sgn(Orient(k, l, j))
Admissible == Dim = 3 \/ (Area2 > 0 /\ ~Hit(1, 2, 3, 4) /\ ~Hit(2, 3, 4, 1))

Cos(q) == CASE q = 0 -> 1 [] q = 1 -> 0 [] q = 2 -> -1 [] q = 3 -> 0
Sin(q) == CASE q = 0 -> 0 [] q = 1 -> 1 [] q = 2 -> 0 [] q = 3 -> -1
Rz(q, v) == <<Cos(q) * v[1] - Sin(q) * v[2], Sin(q) * v[1] + Cos(q) * v[2], v[3]>>
Rx(q, v) == <<v[1], Cos(q) * v[2] - Sin(q) * v[3], Sin(q) * v[2] + Cos(q) * v[3]>>
Rot(v) == LET w == IF Dim = 2 THEN <<v[1], v[2], 0>> ELSE v
              r == IF Dim = 2 THEN Rz(turn[1], w) ELSE Rz(turn[1], Rx(turn[2], Rz(turn[3], w)))
          IN [a \in Ax |-> r[a]]
\* displacement of a corner, over 2 * CentroidDen
CornerDisp(c) == LET den == CentroidDen  m == CentroidNum
                     rel == Rot([a \in Ax |-> den * Def2(c)[a] - m[a]])
                 IN [a \in Ax |-> m[a] + rel[a] + 2 * den * shift[a] - 2 * den * Ref(c)[a]]
\* boundary nodes interpolate the corners along edges and faces
W(c, ix) == Prod([a \in Ax |-> IF Side(c)[a] = 1 THEN ix[a] ELSE N[a] - 1 - ix[a]], Dim)
Den == 2 * CentroidDen * Prod([a \in Ax |-> N[a] - 1], Dim)
NodeDisp(CD, ix) == [a \in Ax |-> LET RECURSIVE S(_) S(c) == IF c = 0 THEN 0 ELSE W(c, ix) * CD[c][a] + S(c - 1)
                                 IN S(IF Dim = 2 THEN 4 ELSE 8)]

-------------------------------------------------------------------------------
(* The mesh without some elements: what is kept keeps its order.               *)
Kept == SelectSeq([e \in 1..NElem |-> e], LAMBDA e : e \notin gone)
KeptNodes(L) == UNION {{ElemNodes(L, Kept[i])[p] : p \in 1..NPos} : i \in 1..Len(Kept)}

(* Edges by label: four per face, two along each in-plane axis.                *)
Plane == IF Dim = 2 THEN <<<<1, 2>>>> ELSE <<<<1, 2>>, <<1, 2>>, <<2, 3>>, <<2, 3>>, <<1, 3>>, <<1, 3>>>>
EdgeLabels == 1..(IF Dim = 2 THEN 4 ELSE 24)
CornerAt(sd) == CHOOSE c \in Corners : \A a \in Ax : Side(c)[a] = sd[a]
EdgeOf(l) == LET f == ((l - 1) \div 4) + 1  k == (l - 1) % 4  pl == Plane[f]
                 along == pl[(k \div 2) + 1]  across == pl[2 - (k \div 2)]
                 Sd(s, t) == [a \in Ax |-> IF a = along THEN s ELSE IF a = across THEN t ELSE (f + 1) % 2]
             IN [from |-> CornerAt(Sd(0, k % 2)), to |-> CornerAt(Sd(1, k % 2)), opp |-> CornerAt(Sd(1, 1 - (k % 2))),
                 along |-> along, n |-> N[along], amp |-> amp[l], lab |-> l]

Kinds == {"plain", "small", "large", "curved"}
Init == \E pool \in (IF Sim THEN 1..128 ELSE {1}) :
        /\ kind \in Choice(IF Sim THEN Kinds ELSE {"small"})
        /\ ne = [a \in Ax |-> IF Sim THEN RandomElement(1..MaxElem) ELSE 1 + (a % 2)]
        /\ size = [a \in Ax |-> IF Sim THEN RandomElement({12, 20, 31}) ELSE 12]
        /\ order = IF Sim THEN (IF kind = "curved" THEN RandomElement(2..3) ELSE RandomElement(0..3)) ELSE 1
        /\ turn = [a \in 1..3 |-> IF Sim /\ kind # "plain" THEN RandomElement(0..3) ELSE a % 4]
        /\ shift = [a \in Ax |-> IF Sim THEN RandomElement(-3..3) ELSE a]
        /\ gone = (IF Sim THEN {e \in 1..NElem : RandomElement(1..4) = 1} ELSE {2})
        /\ amp = [l \in EdgeLabels |-> IF kind = "curved" THEN RandomElement(-2..2) ELSE 0]
        /\ cd = [c \in Corners |-> [a \in Ax |-> IF ~Sim THEN (c + a) % 3 ELSE CASE kind = "plain" -> 0
              [] kind \in {"small", "curved"} -> (IF Dim = 3 /\ order = 0 THEN (IF Side(c)[a] = 1 THEN size[a] \div 10 ELSE 0)
                                    ELSE RandomElement(-2..2))
              [] kind = "large" -> IF Dim = 3 THEN (IF order = 0 THEN 1 ELSE RandomElement(-3..3)) ELSE RandomElement(-26..26)]]
        /\ Clear /\ Straight /\ (Dim = 2 => Area2 # 0)
        /\ stage = "start"
Next == stage = "start" /\ stage' = "done" /\ UNCHANGED <<ne, size, cd, turn, shift, order, amp, gone, kind>>
Spec == Init /\ [][Next]_vars

\* design: labels are consecutive, every node belongs to an element, rigid motions move corners rigidly
Consecutive == LET L == LabelOf IN {L[g] : g \in DOMAIN L} = 1..Cardinality(DOMAIN L)
Covered == LET L == LabelOf IN UNION {{ElemNodes(L, e)[p] : p \in 1..NPos} : e \in 1..NElem} = 1..Cardinality(DOMAIN L)
DistinctNodes == LET L == LabelOf IN \A e \in 1..NElem : Cardinality({ElemNodes(L, e)[p] : p \in 1..NPos}) = NPos
Dot(u, v) == LET RECURSIVE S(_) S(a) == IF a = 0 THEN 0 ELSE u[a] * v[a] + S(a - 1) IN S(Dim)
Rigid == \A c, d \in Corners : LET u == [a \in Ax |-> Def2(c)[a] - Def2(d)[a]] IN Dot(Rot(u), Rot(u)) = Dot(u, u)

Emit == stage = "done" => PrintT("@@" \o ToJson(
  LET L == LabelOf
      CD == [c \in Corners |-> CornerDisp(c)]
      B == {g \in DOMAIN L : Ends(At(g)) # {}}
      kn == KeptNodes(L)
  IN [type |-> Type, ne |-> ne, size |-> size, cd |-> cd, turn |-> turn, shift |-> shift, order |-> order, kind |-> kind,
      grid |-> N, labels |-> [g \in 1..Total |-> IF g - 1 \in DOMAIN L THEN L[g - 1] ELSE 0],
      elements |-> [e \in 1..NElem |-> ElemNodes(L, e)],
      boundary |-> {L[g] : g \in B}, edges |-> {L[g] : g \in {g \in B : Cardinality(Ends(At(g))) >= Dim - 1}},
      admissible |-> Admissible, den |-> Den,
      disps |-> {[n |-> L[g], at |-> At(g), d |-> NodeDisp(CD, At(g))] : g \in B},
      curves |-> IF kind = "curved" THEN {EdgeOf(l) : l \in EdgeLabels} ELSE {},
      gone |-> gone, kept |-> Kept, keptnodes |-> kn,
      removable |-> Kept # <<>> /\ {L[g] : g \in B} \subseteq kn]))
===============================================================================
