------------------------------ MODULE Elasticity ------------------------------
(* Elastic stiffness of every symmetry class from its independent moduli (C08).  *)
(* Exact integers: a modulus name is a pair of components; the class declares    *)
(* which moduli are independent, the others follow from the invariance of the    *)
(* stiffness under the symmetry group of the class (checked as Invariance).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S
Comps == <<"11", "22", "33", "12", "23", "13">>
Ix == [c \in {Comps[i] : i \in 1..6} |-> CASE c = "11" -> <<1, 1>> [] c = "22" -> <<2, 2>> [] c = "33" -> <<3, 3>>
                                           [] c = "12" -> <<1, 2>> [] c = "23" -> <<2, 3>> [] OTHER -> <<1, 3>>]
Classes == {"isotropic", "transverse_isotropic", "orthotropic", "monoclinic", "triclinic"}
N == 1..3
K(i, j) == CHOOSE k \in 1..6 : Ix[Comps[k]] \in {<<i, j>>, <<j, i>>}
Pair(a, b) == IF a <= b THEN <<a, b>> ELSE <<b, a>>
AllPairs == {<<a, b>> \in (1..6) \X (1..6) : a <= b}
Normal == {<<a, b>> \in AllPairs : b <= 3}
Shear == {<<4, 4>>, <<5, 5>>, <<6, 6>>}
\* independent moduli of each class (axis of symmetry 3, plane of symmetry 12)
Needs(c) == CASE c = "isotropic" -> {<<1, 1>>, <<1, 2>>}
              [] c = "transverse_isotropic" -> {<<1, 1>>, <<3, 3>>, <<1, 2>>, <<1, 3>>, <<5, 5>>}
              [] c = "orthotropic" -> Normal \cup Shear
              [] c = "monoclinic" -> Normal \cup Shear \cup {<<1, 4>>, <<2, 4>>, <<3, 4>>, <<5, 6>>}
              [] OTHER -> AllPairs

VARIABLES cls, mod, strain, drop, stage
vars == <<cls, mod, strain, drop, stage>>

\* value of the modulus of a pair of components
V(a, b) ==
  LET p == Pair(a, b) IN
  IF p \in Needs(cls) THEN mod[p] ELSE
  CASE cls = "isotropic" -> IF p \in Normal THEN IF a = b THEN mod[<<1, 1>>] ELSE mod[<<1, 2>>]
                            ELSE IF p \in Shear THEN (mod[<<1, 1>>] - mod[<<1, 2>>]) \div 2 ELSE 0
    [] cls = "transverse_isotropic" ->
         CASE p = <<2, 2>> -> mod[<<1, 1>>] [] p = <<2, 3>> -> mod[<<1, 3>>] [] p = <<6, 6>> -> mod[<<5, 5>>]
           [] p = <<4, 4>> -> (mod[<<1, 1>>] - mod[<<1, 2>>]) \div 2 [] OTHER -> 0
    [] OTHER -> 0
C(i, j, k, l) == V(K(i, j), K(k, l))
Sum3(f(_)) == f(1) + f(2) + f(3)
\* stress of a strain: c(i,j,k,l) e(k,l)
Stress(e) == [i \in N |-> [j \in N |-> LET r(k) == LET t(l) == C(i, j, k, l) * e[k][l] IN Sum3(t) IN Sum3(r)]]
Conj(q, x) == [i \in N |-> [j \in N |-> LET r(k) == LET t(l) == q[i][k] * x[k][l] * q[j][l] IN Sum3(t) IN Sum3(r)]]
\* symmetry groups: generators as integer matrices (orthogonal up to a factor)
Mirror(k) == [i \in N |-> [j \in N |-> IF i # j THEN 0 ELSE IF i = k THEN -1 ELSE 1]]
Turn3 == <<<<3, -4, 0>>, <<4, 3, 0>>, <<0, 0, 5>>>>
Turn1 == <<<<5, 0, 0>>, <<0, 3, -4>>, <<0, 4, 3>>>>
Group(c) == CASE c = "triclinic" -> {} [] c = "monoclinic" -> {Mirror(3)} [] c = "orthotropic" -> {Mirror(3), Mirror(2)}
              [] c = "transverse_isotropic" -> {Mirror(3), Mirror(2), Turn3} [] OTHER -> {Mirror(3), Mirror(2), Turn3, Turn1}
Invariance == stage = "use" => \A q \in Group(cls) : Stress(Conj(q, strain)) = Conj(q, Stress(strain))
Symmetric == stage = "use" => \A a, b \in 1..6 : V(a, b) = V(b, a)

Basis == {[i \in N |-> [j \in N |-> IF <<i, j>> \in {<<a, b>>, <<b, a>>} THEN 1 ELSE 0]] : a \in N, b \in N}
RandStrain(z) == LET r == TLCEval([p \in 1..6 |-> RandomElement((0 - 9 - z)..9)]) IN [i \in N |-> [j \in N |-> r[K(i, j)]]]
Init == cls \in Classes /\ mod = <<>> /\ strain = <<>> /\ drop = <<>> /\ stage = "make"
Make == /\ stage = "make"
        /\ mod' = TLCEval([p \in Needs(cls) |-> IF ~Sim THEN 2 * (IF p[1] = p[2] THEN 40 + 3 * p[1] ELSE 7 * p[1] + p[2] - 9) ELSE IF p[1] = p[2] THEN 2 * RandomElement((20 + Len(strain))..40) ELSE 2 * RandomElement((0 - 9 - Len(strain))..9)])
        /\ strain' \in (IF Sim THEN {TLCEval(RandStrain(Len(strain)))} ELSE Basis)
        /\ drop' \in Choice(Needs(cls)) /\ stage' = "use" /\ UNCHANGED cls
Finish == stage = "use" /\ stage' = "done" /\ UNCHANGED <<cls, mod, strain, drop>>
Spec == Init /\ [][Make \/ Finish]_vars
Name(p) == "E" \o Comps[p[1]] \o Comps[p[2]]
Emit == stage = "done" => PrintT("@@" \o ToJson([cls |-> cls, moduli |-> {[n |-> Name(p), v |-> mod[p]] : p \in Needs(cls)}, drop |-> Name(drop),
                                                 strain |-> strain, stress |-> Stress(strain)]))
===============================================================================
