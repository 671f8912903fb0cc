---------------------------------- MODULE Mesh --------------------------------
(* Finite element mesh (C14): configurations and element/mesh addressing.      *)
(* Node i of a mesh has integer coordinates; elements list distinct nodes in   *)
(* any order and may have different numbers of nodes. Extraction reads, and    *)
(* assembly adds, exactly the entries of the element's own nodes.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NNode, NElem, Dim, Uniform,  \* Uniform: all elements have the same number of nodes
          MaxOps, Sim
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S
Nodes == 1..NNode
Elems == 1..NElem
Ix == 1..Dim
Zero == [v \in Nodes |-> [i \in Ix |-> 0]]

VARIABLES conn, X0, X, Xold, U, Uold, hist, n, done
vars == <<conn, X0, X, Xold, U, Uold, hist, n, done>>

\* pseudo-random integer fields from a few parameters
Field(p, q, r) == [v \in Nodes |-> [i \in Ix |-> ((p * v + q * i + r * v * i) % 11) - 5]]
\* k distinct nodes in some order: a stride through the mesh (strides coprime to NNode)
Coprime == {s \in 1..(NNode - 1) : \A d \in 2..s : ~(s % d = 0 /\ NNode % d = 0)}
NodesOf(k, start, s) == [j \in 1..k |-> ((start + s * (j - 1)) % NNode) + 1]
Sizes == IF Dim = 2 THEN {3, 4} ELSE {4, 8}
Rng == IF Sim THEN 0..10 ELSE {2, 7}
Order(S, i) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = i % Cardinality(S)
InitConn == \E a \in Choice(Rng), b \in Choice(Rng), c \in Choice(Rng) :
  conn = [e \in Elems |-> NodesOf(Order(Sizes, IF Uniform THEN c ELSE c + (b * e) \div 3), a * e + b * e * e,
                                  Order(Coprime, c * e + a))]

\* TLC draws one simulated initial state per element of the pool, so sampled runs start differently
Pool == IF Sim THEN 1..256 ELSE {1}
Init == \E pool \in Pool :
  /\ InitConn
  /\ \E p \in Choice(Rng), q \in Choice(Rng) : X0 = Field(p, q, 3)
  /\ X = X0 /\ Xold = X0 /\ U = Zero /\ Uold = Zero
  /\ hist = <<>> /\ n = 0 /\ done = FALSE

Plus(a, b) == [v \in Nodes |-> [i \in Ix |-> a[v][i] + b[v][i]]]
Log(op) == /\ hist' = Append(hist, op @@ [X |-> X', Xold |-> Xold', U |-> U', Uold |-> Uold'])
           /\ n' = n + 1 /\ done' = FALSE /\ UNCHANGED <<conn, X0>>

\* a new configuration: displacements are replaced; coordinates follow only when requested
Update == \E tm \in Choice({"current", "last"}), co \in Choice({TRUE, TRUE, FALSE}),
             p \in Choice(Rng), q \in Choice(Rng), r \in Choice(Rng) :
  LET d == Field(p, q, r)
  IN /\ IF tm = "current" THEN U' = d /\ UNCHANGED Uold ELSE Uold' = d /\ UNCHANGED U
     /\ IF tm = "current" /\ co THEN X' = Plus(X0, d) ELSE UNCHANGED X
     /\ IF tm = "last" /\ co THEN Xold' = Plus(X0, d) ELSE UNCHANGED Xold
     /\ Log([op |-> "update", time |-> tm, coords |-> co, d |-> d])

\* one time step of a history: current becomes last, a new current is prescribed
Advance == \E p \in Choice(Rng), q \in Choice(Rng), r \in Choice(Rng), co \in Choice(BOOLEAN) :
  LET d == Field(p, q, r)
  IN /\ U' = d /\ Uold' = U
     /\ IF co THEN X' = Plus(X0, d) /\ Xold' = Plus(X0, U) ELSE UNCHANGED <<X, Xold>>
     /\ Log([op |-> "advance", d |-> d, old |-> U, coords |-> co])

\* element arrays f[e], nd values per node of the element
ElemArr(nd, p, q) == [e \in Elems |-> [j \in 1..(Len(conn[e]) * nd) |-> ((p * e + q * j + e * j) % 13) - 6]]
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSet(f, S \ {x})
Entry(e, nd, node, i) ==      \* position in element e of value i of a mesh node (0: not a node of e)
  IF \E j \in 1..Len(conn[e]) : conn[e][j] = node
  THEN (CHOOSE j \in 1..Len(conn[e]) : conn[e][j] = node) * nd - nd + i ELSE 0
Assembled(f, nd, es) ==
  [k \in 1..(NNode * nd) |->
     LET node == ((k - 1) \div nd) + 1
         i == ((k - 1) % nd) + 1
     IN SumSet([e \in es |-> LET a == Entry(e, nd, node, i) IN IF a = 0 THEN 0 ELSE f[e][a]], es)]
Extracted(g, nd, e) ==
  [k \in 1..(Len(conn[e]) * nd) |-> g[(conn[e][((k - 1) \div nd) + 1] - 1) * nd + ((k - 1) % nd) + 1]]

Assemble == \E nd \in Choice(1..3), p \in Choice(Rng), q \in Choice(Rng),
               es \in Choice({Elems, {e \in Elems : e % 2 = 0}, {NElem}, Elems}) :
  LET f == ElemArr(nd, p, q)
  IN /\ es # {} /\ UNCHANGED <<X, Xold, U, Uold>>
     /\ Log([op |-> "assemble", nd |-> nd, es |-> es, f |-> f, v |-> Assembled(f, nd, es)])
Extract == \E nd \in Choice(1..3), p \in Choice(IF Sim THEN 1..30 ELSE {5}), e \in Choice(Elems) :
  LET g == [k \in 1..(NNode * nd) |-> ((p * k) % 31) - 15]
  IN /\ UNCHANGED <<X, Xold, U, Uold>>
     /\ Log([op |-> "extract", nd |-> nd, e |-> e, g |-> g, v |-> Extracted(g, nd, e)])
Index == \E nd \in Choice(1..3) :
  /\ UNCHANGED <<X, Xold, U, Uold>>
  /\ Log([op |-> "index", nd |-> nd, v |-> [e \in Elems |->
          Extracted([k \in 1..(NNode * nd) |-> k - 1], nd, e)]])

\* a specimen history: displacements of three times; going to time k sets both configurations
DispAt(k) == Field(k + X0[1][1] + 6, 2 * k * k, k)
History == \E k \in Choice(1..3), co \in Choice(BOOLEAN) :
  LET old == IF k = 1 THEN 1 ELSE k - 1
  IN /\ U' = DispAt(k) /\ Uold' = DispAt(old)
     /\ IF co THEN X' = Plus(X0, DispAt(k)) /\ Xold' = Plus(X0, DispAt(old)) ELSE UNCHANGED <<X, Xold>>
     /\ Log([op |-> "history", k |-> k, coords |-> co])

Finish == n = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<conn, X0, X, Xold, U, Uold, hist, n>>
Next == \/ n < MaxOps /\ (Update \/ Advance \/ History \/ Assemble \/ Extract \/ (Uniform /\ Index))
        \/ Finish
Spec == Init /\ [][Next]_vars

\* design: assembly and extraction are adjoint; the initial configuration never moves
Dot(a, b, m) == SumSet([k \in 1..m |-> a[k] * b[k]], 1..m)
Adjoint == \A i \in 1..Len(hist) : hist[i].op = "assemble" =>
  LET h == hist[i]
      g == [k \in 1..(NNode * h.nd) |-> ((7 * k) % 31) - 15]
  IN Dot(h.v, g, NNode * h.nd) =
       SumSet([e \in h.es |-> Dot(h.f[e], Extracted(g, h.nd, e), Len(conn[e]) * h.nd)], h.es)
InitFixed == [][X0' = X0]_vars
Consistent == \A i \in 1..Len(hist) : (hist[i].op = "advance" /\ hist[i].coords) =>
                 hist[i].X = Plus(X0, hist[i].U) /\ hist[i].Xold = Plus(X0, hist[i].Uold)
Emit == done => PrintT("@@" \o ToJson([conn |-> conn, X0 |-> X0, D |-> [k \in 1..3 |-> DispAt(k)], ops |-> hist]))
===============================================================================
