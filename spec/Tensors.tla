-------------------------------- MODULE Tensors --------------------------------
(* Storage of second- and fourth-order tensors in matricial form (C19). Integer *)
(* tensors; a matricial component is <<integer, k>>, meaning integer * 2^(k/2). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, N, Symm
D == 1..N
VARIABLES a, b, ord, kelvin, seed, stage
vars == <<a, b, ord, kelvin, seed, stage>>

Two == [D \X D -> Int]
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(f, S \ {x})
Sum(S, Op(_)) == SumSet([x \in S |-> Op(x)], S)

\* components that are stored: all of them, or one of each symmetric seed
Flip(c) == <<c[2], c[1]>>
Off(c) == IF c[1] # c[2] THEN 1 ELSE 0
Len2 == IF Symm THEN (N * (N + 1)) \div 2 ELSE N * N
Order(sy, n) == CASE sy /\ n = 2 -> <<<<1, 1>>, <<2, 2>>, <<1, 2>>>>
             [] sy /\ n = 3 -> <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 3>>, <<1, 3>>>>
             [] ~sy /\ n = 2 -> <<<<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>>>
             [] OTHER -> <<<<1, 1>>, <<2, 1>>, <<3, 1>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<1, 3>>, <<2, 3>>, <<3, 3>>>>
Default == Order(Symm, N)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rotate(s, k) == [i \in 1..Len(s) |-> s[((i - 1 + k) % Len(s)) + 1]]
\* Kelvin scaling exists for symmetric storage only
K(c) == IF Symm /\ kelvin THEN Off(c) ELSE 0

Mf(t) == [i \in 1..Len2 |-> <<t[ord[i]], K(ord[i])>>]
Mf4(t) == [i \in 1..Len2 |-> [j \in 1..Len2 |-> <<t[ord[i] \o ord[j]], K(ord[i]) + K(ord[j])>>]]
\* where a component of the tensor is stored
At(c) == CHOOSE i \in 1..Len2 : ord[i] = c \/ (Symm /\ ord[i] = Flip(c))

\* fourth-order tensors
D4 == {c \o d : c \in D \X D, d \in D \X D}
Dyad1 == [q \in D4 |-> a[<<q[1], q[2]>>] * b[<<q[3], q[4]>>]]
Dyad2 == [q \in D4 |-> a[<<q[1], q[3]>>] * b[<<q[2], q[4]>>]]
Dyad3 == [q \in D4 |-> a[<<q[1], q[4]>>] * b[<<q[2], q[3]>>]]
\* two tensors with the symmetries of the storage
A4 == IF Symm THEN [q \in D4 |-> Dyad1[q] + Dyad2[q] + Dyad2[<<q[2], q[1], q[3], q[4]>>] + Dyad2[<<q[1], q[2], q[4], q[3]>>] + Dyad2[<<q[2], q[1], q[4], q[3]>>]]
      ELSE [q \in D4 |-> Dyad1[q] + 2 * Dyad2[q] - Dyad3[q]]
B4 == [q \in D4 |-> b[<<q[1], q[2]>>] * (a[<<q[3], q[4]>>] + b[<<q[3], q[4]>>])]

Ddot22(s, t) == Sum(D \X D, LAMBDA c : s[c] * t[c])
Ddot42(t4, t) == [c \in D \X D |-> Sum(D \X D, LAMBDA d : t4[c \o d] * t[d])]
Ddot24(t, t4) == [c \in D \X D |-> Sum(D \X D, LAMBDA d : t[d] * t4[d \o c])]
Ddot44(s4, t4) == [q \in D4 |-> Sum(D \X D, LAMBDA d : s4[<<q[1], q[2]>> \o d] * t4[d \o <<q[3], q[4]>>])]
Dot22(s, t) == [c \in D \X D |-> Sum(D, LAMBDA m : s[<<c[1], m>>] * t[<<m, c[2]>>])]

\* identities
Kron(i, j) == IF i = j THEN 1 ELSE 0
Soid == [c \in D \X D |-> Kron(c[1], c[2])]
Foid == [q \in D4 |-> Kron(q[1], q[3]) * Kron(q[2], q[4])]
Fotr == [q \in D4 |-> Kron(q[1], q[4]) * Kron(q[2], q[3])]
Trace(t) == Sum(D, LAMBDA m : t[<<m, m>>])
Tr(t) == [c \in D \X D |-> t[Flip(c)]]

-------------------------------------------------------------------------------
Basis == {[c \in D \X D |-> IF c = e \/ (Symm /\ c = Flip(e)) THEN 1 ELSE 0] : e \in D \X D}
Init == /\ IF Sim THEN a = [c \in D \X D |-> 0] /\ b = a ELSE a \in Basis /\ b \in Basis
        /\ ord \in (IF Sim THEN {Default} ELSE {Default, Rotate(Rev(Default), 1)})
        /\ kelvin \in (IF ~Symm \/ Sim THEN {TRUE} ELSE BOOLEAN)
        /\ seed = 0 /\ stage = IF Sim THEN "draw" ELSE "named"
Draw == /\ stage = "draw" /\ stage' = "drawn"
        /\ a' = TLCEval([c \in D \X D |-> RandomElement((seed - 9)..9)]) /\ b' = TLCEval([c \in D \X D |-> RandomElement((seed - 9)..9)])
        /\ \E k \in {RandomElement(0..8)} : \E r \in {RandomElement(BOOLEAN)} : ord' = Rotate(IF r THEN Rev(ord) ELSE ord, k)
        /\ kelvin' \in (IF Symm THEN {RandomElement(BOOLEAN)} ELSE {TRUE})
        /\ UNCHANGED seed
\* symmetric tensors have symmetric components, which may be named either way
Name == /\ stage = "drawn" /\ stage' = "named"
        /\ a' = (IF Symm THEN [c \in D \X D |-> IF c[1] <= c[2] THEN a[c] ELSE a[Flip(c)]] ELSE a)
        /\ b' = (IF Symm THEN [c \in D \X D |-> IF c[1] <= c[2] THEN b[c] ELSE b[Flip(c)]] ELSE b)
        /\ ord' = (IF Symm THEN TLCEval([i \in 1..Len2 |-> IF RandomElement(BOOLEAN) THEN Flip(ord[i]) ELSE ord[i]]) ELSE ord)
        /\ UNCHANGED <<kelvin, seed>>
Finish == stage = "named" /\ stage' = "done" /\ UNCHANGED <<a, b, ord, kelvin, seed>>
Next == Draw \/ Name \/ Finish
Spec == Init /\ [][Next]_vars

\* design: the storage is lossless and preserves contractions
Lossless == stage = "done" => \A c \in D \X D : Mf(a)[At(c)][1] = a[c]
Lossless4 == stage = "done" => \A q \in D4 : Mf4(A4)[At(<<q[1], q[2]>>)][At(<<q[3], q[4]>>)][1] = A4[q]
Pow2(k) == IF k = 0 THEN 1 ELSE 2
Inner == Sum(1..Len2, LAMBDA i : a[ord[i]] * b[ord[i]] * Pow2(K(ord[i])))
PreservesInner == (stage = "done" /\ (Symm => kelvin)) => Inner = Ddot22(a, b)
PreservesProduct == (stage = "done" /\ (Symm => kelvin)) => \A i, j \in 1..Len2 :
   Sum(1..Len2, LAMBDA k : A4[ord[i] \o ord[k]] * B4[ord[k] \o ord[j]] * Pow2(K(ord[k]))) = Ddot44(A4, B4)[ord[i] \o ord[j]]
PreservesApply == (stage = "done" /\ (Symm => kelvin)) => \A i \in 1..Len2 :
   Sum(1..Len2, LAMBDA k : A4[ord[i] \o ord[k]] * b[ord[k]] * Pow2(K(ord[k]))) = Ddot42(A4, b)[ord[i]]
\* engineering shear strains: the work of stress and strain is preserved
Work == (stage = "done" /\ Symm) => Sum(1..Len2, LAMBDA i : a[ord[i]] * (1 + Off(ord[i])) * b[ord[i]]) = Ddot22(a, b)
Identities == /\ Ddot42(Foid, a) = a /\ Ddot42(Fotr, a) = Tr(a)
              /\ Ddot24(a, Foid) = a /\ Ddot22(Soid, a) = Trace(a)

\* plane components within the storage of a spatial tensor
Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Plane == [i \in 1..Len(Order(Symm, 2)) |-> Index(Order(Symm, 3), Order(Symm, 2)[i])]
Flat2(t) == [i \in D |-> [j \in D |-> t[<<i, j>>]]]
Flat4(t) == [i \in D |-> [j \in D |-> [k \in D |-> [l \in D |-> t[<<i, j, k, l>>]]]]]
Emit == stage = "done" => PrintT("@@" \o ToJson(
  [n |-> N, symm |-> Symm, kelvin |-> kelvin, ord |-> ord, a |-> Flat2(a), b |-> Flat2(b), A |-> Flat4(A4), B |-> Flat4(B4),
   mfa |-> Mf(a), mfb |-> Mf(b), mfA |-> Mf4(A4),
   dyad1 |-> Flat4(Dyad1), dyad2 |-> Flat4(Dyad2), dyad3 |-> Flat4(Dyad3),
   ddot22 |-> Ddot22(a, b), ddot42 |-> Flat2(Ddot42(A4, b)), ddot24 |-> Flat2(Ddot24(b, A4)), ddot44 |-> Flat4(Ddot44(A4, B4)),
   dot |-> Flat2(Dot22(a, b)), inner |-> Inner, trace |-> Trace(a),
   strain |-> [i \in 1..Len2 |-> (1 + Off(ord[i])) * a[ord[i]]], stress |-> [i \in 1..Len2 |-> b[ord[i]]],
   aba |-> Flat2(Dot22(Dot22(a, b), a)), plane |-> Plane, out |-> Index(Order(Symm, 3), <<3, 3>>), size3 |-> Len(Order(Symm, 3)),
   standard |-> ord = Default,
   vol |-> [i \in 1..Len2 |-> (1 - Off(ord[i]))]]))
===============================================================================
