------------------------------- MODULE Specimen -------------------------------
(* Files of a specimen (C25): a simulation writes its mesh, its boundary       *)
(* conditions and the nodal results of its steps; they are converted to the    *)
(* mesh and history files of the material model finder, relabelled, and read   *)
(* back. All numbers are integers, so every file holds them exactly.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Sim
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S
None == [none |-> TRUE]

VARIABLES sim, inp, csv, hist, n, done
vars == <<sim, inp, csv, hist, n, done>>

Kinds == {"tri3", "quad4", "tetra4", "hexa8", "hexa20"}
Per(t) == CASE t = "tri3" -> 3 [] t = "quad4" -> 4 [] t = "tetra4" -> 4 [] t = "hexa8" -> 8 [] t = "hexa20" -> 20
Dim(t) == IF t \in {"tri3", "quad4"} THEN 2 ELSE 3

Field(nn, p, q, r) == [v \in 1..nn |-> [i \in 1..3 |-> ((p * v + q * i + r * v * i + p * q) % 23) - 11]]
\* elements take consecutive nodes of a walk through the mesh, so that every node is used
Conn(nn, m, ne, s) == [e \in 1..ne |-> [k \in 1..m |-> ((s * ((e - 1) * m + k - 1)) % nn) + 1]]
Coprime(nn) == {s \in 1..(nn - 1) : \A d \in 2..s : ~(s % d = 0 /\ nn % d = 0)}
Mesh(t, extra, s, p, q) ==
  LET nn == Per(t) + extra
      ne == (nn \div Per(t)) + 1 + (p % 2)
      C == Coprime(nn)
      st == CHOOSE x \in C : Cardinality({y \in C : y < x}) = s % Cardinality(C)
      X == Field(nn, p, q, 5)
  IN [type |-> t, dim |-> Dim(t), n |-> nn,
      X |-> [v \in 1..nn |-> [i \in 1..Dim(t) |-> X[v][i]]],
      conn |-> Conn(nn, Per(t), ne, st),
      bc |-> {[v |-> v, i |-> i, u |-> ((v * q + i * p) % 7) - 3] :
                 <<v, i>> \in {w \in (1..nn) \X (1..Dim(t)) : (p * w[1] + q * w[2] + w[1] * w[2]) % 3 = 0}}]
Step(nn, k, p, q) == [U |-> Field(nn, p + k, q, 3), R |-> Field(nn, q, p + 2 * k, 7)]
Run(m, T, p, q) == [k \in 1..T |-> Step(m.n, k, p, q)]

\* labels of degrees of freedom: constrained ones, or any declared sets
ZeroL(m) == [v \in 1..m.n |-> [i \in 1..3 |-> 0]]
Pointwise(m) == [v \in 1..m.n |-> [i \in 1..3 |-> IF \E b \in m.bc : b.v = v /\ b.i = i THEN 1 ELSE 0]]
Sets(m, p, q) == [v \in 1..m.n |-> [i \in 1..3 |->
                    IF (v + p) % 3 = 0 THEN 0 ELSE 1 + ((i - 1) * q) + (v % 2)]]

Init == \E pool \in (IF Sim THEN 1..256 ELSE {1}) :
          /\ sim = None /\ inp = None /\ csv = None /\ hist = <<>> /\ n = 0 /\ done = FALSE
Log(r) == hist' = Append(hist, r) /\ n' = n + 1 /\ done' = FALSE
Rng == IF Sim THEN 1..10 ELSE {2}

\* a simulation replaces the files of the previous one
Simulate == \E t \in Choice(IF Sim THEN Kinds ELSE {"tri3", "tetra4"}), x \in Choice(IF Sim THEN 1..5 ELSE {2}), s \in Choice(Rng), p \in Choice(Rng), q \in Choice(Rng),
               T \in Choice(IF Sim THEN {1, 3, 12} ELSE {2}), b \in Choice(IF Sim THEN {0, 1} ELSE {0}), g \in Choice(IF Sim THEN {1, 5} ELSE {5}) :
  LET m == Mesh(t, x, s, p, q)
  IN /\ sim' = [mesh |-> m, steps |-> Run(m, T, p, q), num |-> [k \in 1..T |-> b + g * (k - 1)]]
     /\ Log([op |-> "simulate", sim |-> sim'])
     /\ UNCHANGED <<inp, csv>>
\* mesh file and one history file per step, in time order; what was there before is gone
Gen == /\ sim # None
       /\ inp' = sim.mesh
       /\ csv' = [steps |-> [k \in 1..Len(sim.steps) |-> [U |-> sim.steps[k].U, R |-> sim.steps[k].R, L |-> Pointwise(sim.mesh)]]]
       /\ Log([op |-> "gen", T |-> Len(sim.steps)])
       /\ UNCHANGED sim
Plain == /\ sim # None
         /\ Log([op |-> "plain", T |-> Len(sim.steps), steps |-> sim.steps])
         /\ UNCHANGED <<sim, inp, csv>>
\* mesh conversions between the two simulators
DatToInp == /\ sim # None /\ Log([op |-> "dat2inp", mesh |-> sim.mesh]) /\ UNCHANGED <<sim, inp, csv>>
InpToDat == /\ inp # None /\ Log([op |-> "inp2dat", mesh |-> inp]) /\ UNCHANGED <<sim, inp, csv>>
\* labels of all steps are replaced; labels are copied step by step from another history
Relabel == /\ csv # None
           /\ \E p \in Choice(Rng), q \in Choice(IF Sim THEN {0, 1, 2} ELSE {1}), z \in Choice(IF Sim THEN {1, 2, 3} ELSE {1, 2}) :
                LET L == IF z = 1 THEN Pointwise(inp) ELSE Sets(inp, p, q) IN
                /\ csv' = [steps |-> [k \in 1..Len(csv.steps) |-> [csv.steps[k] EXCEPT !.L = L]]]
                /\ Log([op |-> "relabel", L |-> L])
           /\ UNCHANGED <<sim, inp>>
Copy == /\ csv # None
        /\ \E d \in Choice(IF Sim THEN {0, 1, 2, 3} ELSE {0, 1}), p \in Choice(Rng), q \in Choice(IF Sim THEN {1, 2} ELSE {1}) :
             LET T == Len(csv.steps) + (IF d = 1 THEN 1 ELSE 0)
                 src == [k \in 1..T |-> Sets(inp, p + k, q)]
             IN /\ csv' = IF d = 1 THEN csv
                          ELSE [steps |-> [k \in 1..T |-> [csv.steps[k] EXCEPT !.L = src[k]]]]
                /\ Log([op |-> "copy", labels |-> src, ok |-> d # 1])
        /\ UNCHANGED <<sim, inp>>
\* files of other origin in the history folder are not steps
Foreign == /\ csv # None
           /\ \E k \in Choice({"bak", "tilde", "other", "txt", "prefix", "suffix"}) : Log([op |-> "foreign", kind |-> k])
           /\ UNCHANGED <<sim, inp, csv>>
DimOf == inp.dim
Cut(F) == [v \in 1..inp.n |-> [i \in 1..DimOf |-> F[v][i]]]
Loaded == [k \in 1..Len(csv.steps) |-> [U |-> Cut(csv.steps[k].U), R |-> Cut(csv.steps[k].R), L |-> Cut(csv.steps[k].L)]]
PointOk == \A k \in 1..Len(csv.steps), v \in 1..inp.n, i \in 1..DimOf : csv.steps[k].L[v][i] \in {0, 1}
LabelsIn(i) == {csv.steps[k].L[v][i] : k \in 1..Len(csv.steps), v \in 1..inp.n} \ {0}
SetsOk == \A i, j \in 1..DimOf : i # j => LabelsIn(i) \cap LabelsIn(j) = {}
Load == /\ csv # None
        /\ Log([op |-> "load", mesh |-> inp, steps |-> Loaded, point |-> PointOk, sets |-> SetsOk])
        /\ UNCHANGED <<sim, inp, csv>>
RECURSIVE Total(_, _, _, _)
Total(k, i, S, acc) == IF S = {} THEN acc
                       ELSE LET v == CHOOSE x \in S : TRUE IN Total(k, i, S \ {v}, acc + csv.steps[k].R[v][i])
L0(i) == {csv.steps[1].L[v][i] : v \in 1..inp.n}
Members(i, l) == {v \in 1..inp.n : csv.steps[1].L[v][i] = l}
React == /\ csv # None
         /\ Log([op |-> "react", dims |-> [i \in 1..DimOf |->
                   {[l |-> l, nodes |-> Members(i, l),
                     f |-> [k \in 1..Len(csv.steps) |-> Total(k, i, Members(i, l), 0)]] : l \in L0(i)}]])
         /\ UNCHANGED <<sim, inp, csv>>
\* the specimen data set of the finder, saved or not
Dataset == /\ csv # None
           /\ \E a \in Choice(BOOLEAN), b \in Choice(BOOLEAN) :
                Log([op |-> "dataset", data |-> a, state |-> b, mesh |-> inp, steps |-> Loaded])
           /\ UNCHANGED <<sim, inp, csv>>
\* a mesh file of other origin: blocks of elements of several types, ranges of constrained degrees of freedom
Kinds2 == {<<"CPE3", "CPE4">>, <<"C3D4", "C3D8">>, <<"C3D8R", "C3D4">>, <<"C3D20R", "C3D8">>, <<"C3D8", "C3D8R">>}
PerA(t) == CASE t = "CPE3" -> 3 [] t \in {"CPE4", "C3D4"} -> 4 [] t \in {"C3D8", "C3D8R"} -> 8 [] t = "C3D20R" -> 20
DimA(t) == IF t \in {"CPE3", "CPE4"} THEN 2 ELSE 3
Walk(nn, m, k, s) == [j \in 1..m |-> ((s * (k + j - 1)) % nn) + 1]
Abaqus == \E ks \in Choice(IF Sim THEN Kinds2 ELSE {<<"CPE3", "CPE4">>}), x \in Choice(Rng), p \in Choice(Rng), q \in Choice(Rng), a \in Choice({1, 2}), b \in Choice({1, 2}) :
  LET big == IF PerA(ks[1]) > PerA(ks[2]) THEN PerA(ks[1]) ELSE PerA(ks[2])
      nn == big + 1 + (x % 4)
      C == Coprime(nn)
      st == CHOOSE y \in C : Cardinality({z \in C : z < y}) = p % Cardinality(C)
      dim == DimA(ks[1])
      X == Field(nn, p, q, 5)
      \* block g holds element ids 1..a or the following ones; enough elements to reach every node
      n1 == a + 1
      n2 == ((nn \div PerA(ks[2])) + 1)
      blocks == <<[type |-> ks[1], el |-> [e \in 1..n1 |-> [id |-> e, nodes |-> Walk(nn, PerA(ks[1]), e * p, st)]]],
                  [type |-> ks[2], el |-> [e \in 1..n2 |-> [id |-> n1 + e, nodes |-> Walk(nn, PerA(ks[2]), (e - 1) * PerA(ks[2]), st)]]]>>
      ranges == <<[v |-> 1 + (p % nn), i |-> 1, j |-> dim], [v |-> 1 + ((p + q) % nn), i |-> b, j |-> 2], [v |-> 1 + (q % nn), i |-> b, j |-> b],
                  [v |-> 1 + (q % nn), i |-> 1, j |-> 1]>>
  IN /\ Log([op |-> "abaqus", dim |-> dim, n |-> nn, X |-> [v \in 1..nn |-> [i \in 1..3 |-> X[v][i]]], blocks |-> blocks, ranges |-> ranges,
              bc |-> {w \in (1..nn) \X (1..dim) : \E r \in 1..Len(ranges) : ranges[r].v = w[1] /\ ranges[r].i <= w[2] /\ w[2] <= ranges[r].j}])
     /\ UNCHANGED <<sim, inp, csv>>
\* damaged files are refused
Damage == /\ csv # None
          /\ \E k \in Choice({"rows", "columns", "node", "unused", "type", "nonode"}) : Log([op |-> "damage", kind |-> k])
          /\ UNCHANGED <<sim, inp, csv>>

Finish == n >= MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<sim, inp, csv, hist, n>>
Next == (n < MaxOps /\ (Simulate \/ Gen \/ Plain \/ DatToInp \/ InpToDat \/ Relabel \/ Copy \/ Foreign \/ Load \/ React
                        \/ Dataset \/ Damage \/ Abaqus)) \/ Finish
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
Paired == (inp = None) = (csv = None)
\* every node belongs to an element, with distinct nodes in range
MeshOk(m) == /\ \A e \in 1..Len(m.conn) : /\ Cardinality({m.conn[e][k] : k \in 1..Len(m.conn[e])}) = Per(m.type)
                                          /\ \A k \in 1..Len(m.conn[e]) : m.conn[e][k] \in 1..m.n
             /\ UNION {{m.conn[e][k] : k \in 1..Len(m.conn[e])} : e \in 1..Len(m.conn)} = 1..m.n
Meshes == (sim # None => MeshOk(sim.mesh)) /\ (inp # None => MeshOk(inp))
\* sets partition the nodes, so that their reactions add up to the total reaction
SumRec(S) == LET RECURSIVE T(_, _) T(Q, a) == IF Q = {} THEN a ELSE LET x == CHOOSE y \in Q : TRUE IN T(Q \ {x}, a + x[2]) IN T(S, 0)
Balance == csv # None =>
  \A i \in 1..DimOf, k \in 1..Len(csv.steps) :
     SumRec({<<l, Total(k, i, Members(i, l), 0)>> : l \in L0(i)}) = Total(k, i, 1..inp.n, 0)
Emit == done => PrintT("@@" \o ToJson(hist))
===============================================================================
