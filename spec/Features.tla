------------------------------- MODULE Features --------------------------------
(* Derived features of strain and stress paths (C23). A data set holds paths of  *)
(* symmetric or general tensors in a component order; derived features are added to every   *)
(* sample and nothing else changes. Integer tensors; parts are kept as multiples *)
(* (Inv2 = 2 I2, Vol3 = 3 vol, Dev3 = 3 dev).                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, MaxSamples, MaxOps
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S
Comps == <<"11", "22", "33", "12", "23", "13">>
PlaneFull == <<"11", "21", "12", "22">>
Plane == <<"11", "22", "12">>
Diag == {"11", "22", "33"}
Full == <<"11", "21", "31", "12", "22", "32", "13", "23", "33">>
SymComp == {Comps[i] : i \in 1..6}
FullComp == {Full[i] : i \in 1..9}
Idx == [c \in FullComp |-> CASE c = "11" -> <<1, 1>> [] c = "22" -> <<2, 2>> [] c = "33" -> <<3, 3>> [] c = "12" -> <<1, 2>> [] c = "23" -> <<2, 3>>
                            [] c = "13" -> <<1, 3>> [] c = "21" -> <<2, 1>> [] c = "32" -> <<3, 2>> [] OTHER -> <<3, 1>>]

VARIABLES full,     \* tensors are general (nine components) rather than symmetric (six)
          dim, data, order, kind, n, log, stage
vars == <<full, dim, data, order, kind, n, log, stage>>

\* tensors: component -> integer
Comp == IF full THEN FullComp ELSE SymComp
T(x, i, j) == LET c == CHOOSE q \in Comp : Idx[q] = <<i, j>> \/ (~full /\ Idx[q] = <<j, i>>) IN x[c]
Tr(x) == x["11"] + x["22"] + x["33"]
Sum3(f(_)) == f(1) + f(2) + f(3)
SqTrace(x) == LET row(i) == LET el(j) == T(x, i, j) * T(x, j, i) IN Sum3(el) IN Sum3(row)
Inv2(x) == Tr(x) * Tr(x) - SqTrace(x)
Minor(x, i, j) == T(x, i, i) * T(x, j, j) - T(x, i, j) * T(x, j, i)
Vol3(x) == Tr(x)
Dev3(x) == [c \in Comp |-> 3 * x[c] - IF c \in Diag THEN Tr(x) ELSE 0]

\* a feature of a path in a component order, as rows of integers, and the divisor
Value(l, x, ord) == CASE l = "i1_strain" -> <<Tr(x)>> [] l = "i2_strain" -> <<Inv2(x)>> [] l = "vol_stress" -> <<Vol3(x)>>
                      [] OTHER -> [k \in 1..Len(ord) |-> Dev3(x)[ord[k]]]
Div(l) == CASE l = "i1_strain" -> 1 [] l = "i2_strain" -> 2 [] OTHER -> 3
Labels == {"i1_strain", "i2_strain", "vol_stress", "dev_stress"}
Path(s, l) == IF l \in {"i1_strain", "i2_strain"} THEN s.strain ELSE s.stress
Feature(s, l, ords) == [k \in 1..Len(Path(s, l)) |-> Value(l, Path(s, l)[k], IF l \in {"i1_strain", "i2_strain"} THEN ords.strain ELSE ords.stress)]

RandTensor(z) == [c \in Comp |-> RandomElement((z - 9)..9)]
RandPath(z, len) == TLCEval([k \in 1..len |-> RandTensor(z)])
Basis == {[c \in Comp |-> IF c = d THEN 1 ELSE IF c = e THEN 2 ELSE 0] : d \in Comp, e \in Comp}
Perm(base, k, r) == LET L == Len(base) IN [i \in 1..L |-> base[(((IF r THEN L - i ELSE i - 1) + k) % L) + 1]]

Log(e) == log' = Append(log, e)
Rows(p, ord) == [k \in 1..Len(p) |-> [j \in 1..Len(ord) |-> p[k][ord[j]]]]
Shown == [i \in 1..Len(data) |-> [strain |-> Rows(data[i].strain, order.strain), stress |-> Rows(data[i].stress, order.stress)]]
Fill == /\ stage = "fill" /\ Len(data) < MaxSamples
        /\ IF Sim THEN \E len \in Choice(1..4) : data' = Append(data, [strain |-> RandPath(n, len), stress |-> RandPath(n, len), has |-> {}])
           ELSE \E x \in Basis : data' = Append(data, [strain |-> <<x>>, stress |-> <<x>>, has |-> {}])
        /\ UNCHANGED <<full, dim, order, kind, n, log, stage>>
Create == /\ stage = "fill" /\ data # <<>> /\ stage' = "use"
          /\ Log([op |-> "create", dim |-> dim, kind |-> kind, order |-> order, samples |-> Shown])
          /\ UNCHANGED <<full, dim, data, order, kind, n>>
Add == /\ stage = "use" /\ n < MaxOps
       /\ \E l \in Choice(Labels) :
            IF dim = 3
            THEN /\ data' = [i \in 1..Len(data) |-> [data[i] EXCEPT !.has = @ \cup {l}]]
                 /\ Log([op |-> "add", label |-> l, div |-> Div(l), rows |-> [i \in 1..Len(data) |-> Feature(data[i], l, order)]])
            ELSE data' = data /\ Log([op |-> "reject", label |-> l])
       /\ n' = n + 1 /\ UNCHANGED <<full, dim, order, kind, stage>>
\* what the samples hold
Look == /\ stage = "use" /\ n < MaxOps /\ Log([op |-> "look", labels |-> data[1].has, samples |-> Shown])
        /\ n' = n + 1 /\ UNCHANGED <<full, dim, data, order, kind, stage>>
\* an unknown feature
Wrong == /\ stage = "use" /\ n < MaxOps /\ Log([op |-> "reject", label |-> "i3"]) /\ n' = n + 1 /\ UNCHANGED <<full, dim, data, order, kind, stage>>
\* the composition of the two stress parts is the stress
Compose == /\ stage = "use" /\ n < MaxOps /\ {"vol_stress", "dev_stress"} \subseteq data[1].has /\ order.stress = Comps
           /\ Log([op |-> "compose", samples |-> Shown]) /\ n' = n + 1 /\ UNCHANGED <<full, dim, data, order, kind, stage>>
Finish == stage = "use" /\ n = MaxOps /\ stage' = "done" /\ UNCHANGED <<full, dim, data, order, kind, n, log>>

Orders(d, g) == IF ~Sim THEN {[strain |-> IF g THEN Full ELSE Comps, stress |-> Perm(IF g THEN Full ELSE Comps, 2, TRUE)]} ELSE
             LET base == IF g THEN IF d = 3 THEN Full ELSE PlaneFull ELSE IF d = 3 THEN Comps ELSE Plane IN
             {[strain |-> Perm(base, k, r), stress |-> IF q = 0 THEN base ELSE Perm(base, q, ~r)] : k \in 0..2, r \in BOOLEAN, q \in 0..2}
Init == /\ dim \in (IF Sim THEN {2, 3} ELSE {3}) /\ \E pool \in 1..(IF Sim THEN 24 ELSE 1) : dim = IF pool % 6 = 5 THEN 2 ELSE 3
        /\ full \in BOOLEAN /\ order \in Orders(dim, full) /\ kind \in (IF Sim THEN {"memory", "disk", "list"} ELSE {"memory"})
        /\ data = <<>> /\ n = 0 /\ log = <<>> /\ stage = "fill"
Next == Fill \/ Create \/ Add \/ Look \/ Wrong \/ Compose \/ Finish
Spec == Init /\ [][Next]_vars

\* design
Tensors == UNION {{data[i].strain[k] : k \in 1..Len(data[i].strain)} \cup {data[i].stress[k] : k \in 1..Len(data[i].stress)} : i \in 1..Len(data)}
Invariants == \A x \in Tensors : Inv2(x) = 2 * (Minor(x, 1, 2) + Minor(x, 2, 3) + Minor(x, 1, 3))
Traceless == \A x \in Tensors : Tr(Dev3(x)) = 0
Composed == \A x \in Tensors : \A c \in Comp : 3 * x[c] = Dev3(x)[c] + IF c \in Diag THEN Vol3(x) ELSE 0
Emit == stage = "done" => PrintT("@@" \o ToJson([log |-> log]))
===============================================================================
