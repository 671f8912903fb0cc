-------------------------------- MODULE Element -------------------------------
(* Finite element types (C13): shape functions, derivatives, quadrature and    *)
(* geometry in exact integer arithmetic. Local coordinates are multiples of    *)
(* 1/D. A history queries one element: shape functions at points, monomial     *)
(* integrals, Jacobians of affine or distorted shapes, linear displacement     *)
(* fields, and the internal forces of a constant stress.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Type, MaxOps, Sim
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S
D == 4

Dim == CASE Type \in {"quad4", "quad8", "tri3", "tri6"} -> 2 [] OTHER -> 3
Cube == Type \in {"quad4", "quad8", "hexa8", "hexa20"}
Quadratic == Type \in {"quad8", "tri6", "hexa20", "tetra10"}
\* local coordinates of the nodes, times 2
Nodes ==
  CASE Type = "quad4" -> <<<<-2,-2>>, <<2,-2>>, <<2,2>>, <<-2,2>>>>
    [] Type = "quad8" -> <<<<-2,-2>>, <<2,-2>>, <<2,2>>, <<-2,2>>, <<0,-2>>, <<2,0>>, <<0,2>>, <<-2,0>>>>
    [] Type = "tri3"  -> <<<<0,0>>, <<2,0>>, <<0,2>>>>
    [] Type = "tri6"  -> <<<<0,0>>, <<2,0>>, <<0,2>>, <<1,0>>, <<1,1>>, <<0,1>>>>
    [] Type = "hexa8" -> <<<<-2,-2,-2>>, <<2,-2,-2>>, <<2,2,-2>>, <<-2,2,-2>>,
                           <<-2,-2,2>>, <<2,-2,2>>, <<2,2,2>>, <<-2,2,2>>>>
    [] Type = "hexa20" -> <<<<-2,-2,-2>>, <<2,-2,-2>>, <<2,2,-2>>, <<-2,2,-2>>,
                            <<-2,-2,2>>, <<2,-2,2>>, <<2,2,2>>, <<-2,2,2>>,
                            <<0,-2,-2>>, <<2,0,-2>>, <<0,2,-2>>, <<-2,0,-2>>,
                            <<-2,-2,0>>, <<2,-2,0>>, <<2,2,0>>, <<-2,2,0>>,
                            <<0,-2,2>>, <<2,0,2>>, <<0,2,2>>, <<-2,0,2>>>>
    [] Type = "tetra4" -> <<<<0,0,0>>, <<2,0,0>>, <<0,2,0>>, <<0,0,2>>>>
    [] Type = "tetra10" -> <<<<0,0,0>>, <<2,0,0>>, <<0,2,0>>, <<0,0,2>>, <<1,0,0>>, <<1,1,0>>,
                             <<0,1,0>>, <<0,0,1>>, <<1,0,1>>, <<0,1,1>>>>
NNode == Len(Nodes)
Ix == 1..Dim
RECURSIVE Prod(_, _), Sum(_, _)
Prod(f, S) == IF S = {} THEN 1 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] * Prod(f, S \ {x})
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
Pow(b, e) == IF e = 0 THEN 1 ELSE IF e = 1 THEN b ELSE IF e = 2 THEN b * b ELSE IF e = 3 THEN b * b * b
             ELSE IF e = 4 THEN b * b * b * b ELSE b * b * b * b * b

\* barycentric coordinates (times D) of point c, and the vertices a node lies on (times 2)
Bary(c) == [v \in 0..Dim |-> IF v = 0 THEN D - Sum(c, Ix) ELSE c[v]]
Vert(a) == [v \in 0..Dim |-> IF v = 0 THEN 2 - Sum(Nodes[a], Ix) ELSE Nodes[a][v]]

\* numerator of shape function a at point c
Den == CASE Cube /\ ~Quadratic -> Pow(2 * D, Dim)
         [] Cube /\ Quadratic  -> Pow(2, Dim) * Pow(D, Dim + 1)
         [] ~Cube /\ ~Quadratic -> D
         [] OTHER -> D * D
Num(a, c) ==
  LET s == [i \in Ix |-> Nodes[a][i] \div 2]        \* -1, 0, 1 on cubes
      fac == [i \in Ix |-> D + c[i] * s[i]]
      dot == Sum([i \in Ix |-> c[i] * s[i]], Ix)
  IN CASE Cube /\ ~Quadratic -> Prod(fac, Ix)
       [] Cube /\ Quadratic ->
            IF \A i \in Ix : s[i] # 0 THEN Prod(fac, Ix) * (dot - (Dim - 1) * D)
            ELSE LET m == CHOOSE i \in Ix : s[i] = 0
                 IN 2 * (D * D - c[m] * c[m]) * Prod(fac, Ix \ {m})
       [] ~Cube /\ ~Quadratic -> LET v == CHOOSE w \in 0..Dim : Vert(a)[w] = 2 IN Bary(c)[v]
       [] OTHER -> IF \E w \in 0..Dim : Vert(a)[w] = 2
                   THEN LET v == CHOOSE w \in 0..Dim : Vert(a)[w] = 2
                        IN Bary(c)[v] * (2 * Bary(c)[v] - D)
                   ELSE 4 * Prod(Bary(c), {w \in 0..Dim : Vert(a)[w] = 1})
\* numerator (same denominator) of its derivative along local axis k: every shape function is at most
\* quadratic in each coordinate, so the central difference over one grid step is exact
DNum(a, k, c) == (D * (Num(a, [c EXCEPT ![k] = @ + 1]) - Num(a, [c EXCEPT ![k] = @ - 1]))) \div 2

Points == IF Cube THEN [Ix -> -D..D] ELSE {c \in [Ix -> 0..D] : Sum(c, Ix) <= D}

\* ---- design: defining properties of the shape functions, at every grid point
VARIABLES pt, hist, n, done
vars == <<pt, hist, n, done>>
As == 1..NNode
Mono(x, al) == Prod([i \in Ix |-> Pow(x[i], al[i])], Ix)
Complete == {al \in [Ix -> 0..2] : Sum(al, Ix) <= (IF Quadratic THEN 2 ELSE 1)}
            \cup (IF Cube THEN [Ix -> 0..1] ELSE {})
Delta == \A a, b \in As : Num(a, [i \in Ix |-> 2 * Nodes[b][i]]) = IF a = b THEN Den ELSE 0
Reproduce == \A al \in Complete :
   Sum([a \in As |-> Num(a, pt) * Mono([i \in Ix |-> 2 * Nodes[a][i]], al)], As) = Den * Mono(pt, al)
DerivSum == \A k \in Ix : Sum([a \in As |-> DNum(a, k, pt)], As) = 0

\* ---- histories
\* exact integral of a monomial over the reference element: <<numerator, denominator>>
Fact(k) == CASE k = 0 -> 1 [] k = 1 -> 1 [] k = 2 -> 2 [] k = 3 -> 6 [] k = 4 -> 24 [] k = 5 -> 120
             [] k = 6 -> 720 [] k = 7 -> 5040
Integral(al) ==
  IF Cube THEN IF \E i \in Ix : al[i] % 2 = 1 THEN <<0, 1>>
               ELSE <<Pow(2, Dim), Prod([i \in Ix |-> al[i] + 1], Ix)>>
  ELSE <<Prod([i \in Ix |-> Fact(al[i])], Ix), Fact(Sum(al, Ix) + Dim)>>
\* quadrature rules: number of points -> polynomials integrated exactly
Rules == CASE Type = "quad4" -> {1, 4} [] Type = "quad8" -> {4, 9} [] Type = "tri3" -> {1}
           [] Type = "tri6" -> {1, 3} [] Type = "hexa8" -> {1, 8} [] Type = "hexa20" -> {8, 27}
           [] Type = "tetra4" -> {1, 4} [] Type = "tetra10" -> {4}
PerDim(g) == CASE g = 1 -> 1 [] g \in {4, 8} -> 2 [] OTHER -> 3
Exact(g) == IF Cube THEN [Ix -> 0..(2 * PerDim(g) - 1)]
            ELSE {al \in [Ix -> 0..2] : Sum(al, Ix) <= (IF g = 1 THEN 1 ELSE 2)}

Init == /\ pt \in Points
        /\ hist = <<>> /\ n = 0 /\ done = FALSE
Log(r) == hist' = Append(hist, r) /\ n' = n + 1 /\ done' = FALSE /\ UNCHANGED pt
Shape(c) == [N |-> [a \in As |-> Num(a, c)], dN |-> [a \in As |-> [k \in Ix |-> DNum(a, k, c)]]]

QueryShape == \E c \in Choice(Points) :
  Log([op |-> "shape", c |-> c, den |-> Den, v |-> Shape(c)])
QueryIntegral == \E g \in Choice(Rules) :
  Log([op |-> "integral", g |-> g, table |-> {[al |-> al, v |-> Integral(al)] : al \in Exact(g)}])

\* positive map A = L U with diagonal dg, and its determinant
MapA(lo, up, dg) ==
  LET L == [i \in Ix |-> [j \in Ix |-> IF i = j THEN dg[i] ELSE IF i > j THEN lo[i + j - 2] ELSE 0]]
      U == [i \in Ix |-> [j \in Ix |-> IF i = j THEN 1 ELSE IF i < j THEN up[i + j - 2] ELSE 0]]
  IN [i \in Ix |-> [j \in Ix |-> Sum([k \in Ix |-> L[i][k] * U[k][j]], Ix)]]
Coords(A, b, s, w) ==   \* coordinates (times 2) of the nodes: 2 A xi + b, plus a distortion
  [a \in As |-> [i \in Ix |-> Sum([j \in Ix |-> A[i][j] * Nodes[a][j]], Ix) + b[i]
                              + w * (((s[1] * a + s[2] * i + s[3] * a * i) % 3) - 1)]]
Jac(X, c) == [k \in Ix |-> [j \in Ix |-> Sum([a \in As |-> DNum(a, k, c) * X[a][j]], As)]]

Geometry == \E lo \in Choice([1..3 -> -1..1]), up \in Choice([1..3 -> -1..1]), dg \in Choice([Ix -> 1..3]),
               b \in Choice([Ix -> -5..5]), s \in Choice([1..3 -> 0..4]), bent \in Choice(BOOLEAN),
               g \in Choice(Rules), c \in Choice(Points), H \in Choice([Ix -> {<<1, 0, 2>>, <<-2, 1, 0>>,
                 <<0, 3, -1>>, <<0, 0, 0>>, <<1, 1, 1>>, <<-1, 2, 3>>}]) :
  LET A0 == MapA(IF bent THEN [i \in 1..3 |-> 0] ELSE lo, IF bent THEN [i \in 1..3 |-> 0] ELSE up, dg)
      A == [i \in Ix |-> [j \in Ix |-> (IF bent THEN 8 ELSE 1) * A0[i][j]]]
      X == Coords(A, b, s, IF bent THEN 1 ELSE 0)
      det == (IF bent THEN Pow(8, Dim) ELSE 1) * Prod(dg, Ix)
  IN Log([op |-> "geometry", X |-> X, bent |-> bent, g |-> g, c |-> c, J |-> Jac(X, c), den |-> Den,
          det |-> det,  \* of the affine map; reference volume below
          ref |-> Integral([i \in Ix |-> 0]), H |-> [i \in Ix |-> [j \in Ix |-> H[i][j]]]])

Finish == n = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<pt, hist, n>>
Next == \/ n < MaxOps /\ (QueryShape \/ QueryIntegral \/ Geometry)
        \/ Finish
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson([type |-> Type, ops |-> hist]))
===============================================================================
