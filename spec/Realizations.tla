------------------------------ MODULE Realizations ----------------------------
(* Realizations of a model (C31). A study has bases 1..B (one per size of the    *)
(* training data set); each holds a shared model folder, shared prediction        *)
(* folders (one per type of test) and realizations 0, 1, ...: own model m (the    *)
(* number of the training it came from, 0 = none) and own predictions p[type]     *)
(* (the training of the model that made them, 0 = none).                          *)
(*   run      train n realizations anew, or only predict with those that exist    *)
(*   forget   the user deletes the model of a realization, keeps its predictions  *)
(*   drop     the user deletes a realization                                       *)
(*   collect  tables of one base: realizations in numerical order                 *)
(*   study    tables over all bases                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, Bases, MaxM, Types, Families, MaxOps

VARIABLES B, fam, tok, dirs, m, p, sm, sp, ops, done
vars == <<B, fam, tok, dirs, m, p, sm, sp, ops, done>>

Choice(S) == IF Sim THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
Idx == 0..(MaxM - 1)
None == [t \in Types |-> 0]

Init == \E pool \in (IF Sim THEN 1..256 ELSE {1}) :
          /\ B \in Choice(Bases) /\ fam \in Choice(Families)
          /\ tok = 0 /\ ops = <<>> /\ done = FALSE
          /\ dirs = [b \in 1..B |-> {}] /\ m = [b \in 1..B |-> [i \in Idx |-> 0]]
          /\ p = [b \in 1..B |-> [i \in Idx |-> None]]
          /\ sm = [b \in 1..B |-> 0] /\ sp = [b \in 1..B |-> None]

\* numerical order of the realizations of a base
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Sorted(S \ {x})
Row(b, t) == LET s == Sorted(dirs[b]) IN TLCEval([j \in 1..Len(s) |-> p[b][s[j]][t]])
Rank(b) == Sorted(dirs[b])
Params(b) == LET s == Sorted(dirs[b]) IN TLCEval([j \in 1..Len(s) |-> m[b][s[j]]])

Log(r) == ops' = Append(ops, r)
\* what the folders hold after an operation
State(dd, mm, pp, s, q) == [dirs |-> dd, m |-> mm, p |-> pp, sm |-> s, sp |-> q]

Train(b, n, t) ==
  /\ tok' = tok + n
  /\ dirs' = [dirs EXCEPT ![b] = 0..(n - 1)]
  /\ m' = [m EXCEPT ![b] = [i \in Idx |-> IF i < n THEN tok + i + 1 ELSE 0]]
  /\ p' = [p EXCEPT ![b] = [i \in Idx |-> IF i < n THEN [None EXCEPT ![t] = tok + i + 1] ELSE None]]
  /\ sm' = [sm EXCEPT ![b] = tok + n]
  /\ sp' = [sp EXCEPT ![b][t] = tok + n]

Able(b, n) == {i \in dirs[b] : i < n /\ m[b][i] # 0}
Predict(b, n, t) ==
  /\ UNCHANGED <<tok, dirs, m, sm>>
  /\ p' = [p EXCEPT ![b] = [i \in Idx |-> IF i \in Able(b, n) THEN [p[b][i] EXCEPT ![t] = m[b][i]] ELSE p[b][i]]]
  /\ sp' = IF Able(b, n) = {} THEN sp
           ELSE [sp EXCEPT ![b][t] = m[b][CHOOSE i \in Able(b, n) : \A j \in Able(b, n) : j <= i]]

Run == \E b \in Choice(1..B), n \in Choice(1..MaxM), t \in Choice(Types), k \in Choice(1..3) :
         /\ IF k = 1 THEN Train(b, n, t) ELSE Predict(b, n, t)
         /\ Log([op |-> "run", b |-> b, n |-> n, t |-> t, train |-> (k = 1), st |-> State(dirs', m', p', sm', sp')])
         /\ UNCHANGED <<B, fam>>
\* the same run for every base
RunAll == \E n \in Choice(1..MaxM), t \in Choice(Types) :
         /\ tok' = tok + n * B
         /\ dirs' = [b \in 1..B |-> 0..(n - 1)]
         /\ m' = [b \in 1..B |-> [i \in Idx |-> IF i < n THEN tok + (b - 1) * n + i + 1 ELSE 0]]
         /\ p' = [b \in 1..B |-> [i \in Idx |-> IF i < n THEN [None EXCEPT ![t] = tok + (b - 1) * n + i + 1] ELSE None]]
         /\ sm' = [b \in 1..B |-> tok + b * n]
         /\ sp' = [b \in 1..B |-> [sp[b] EXCEPT ![t] = tok + b * n]]
         /\ Log([op |-> "runall", n |-> n, t |-> t, st |-> State(dirs', m', p', sm', sp')])
         /\ UNCHANGED <<B, fam>>
Forget == \E b \in Choice(1..B) : \E i \in Choice({x \in dirs[b] : m[b][x] # 0}) :
         /\ m' = [m EXCEPT ![b][i] = 0]
         /\ Log([op |-> "forget", b |-> b, i |-> i])
         /\ UNCHANGED <<B, fam, tok, dirs, p, sm, sp>>
Drop == \E b \in Choice(1..B) : \E i \in Choice(dirs[b]) :
         /\ dirs' = [dirs EXCEPT ![b] = @ \ {i}]
         /\ m' = [m EXCEPT ![b][i] = 0] /\ p' = [p EXCEPT ![b][i] = None]
         /\ Log([op |-> "drop", b |-> b, i |-> i])
         /\ UNCHANGED <<B, fam, tok, sm, sp>>
Full(b, t) == dirs[b] # {} /\ \A i \in dirs[b] : p[b][i][t] # 0
\* mostly what can be collected
Tests(b, k) == IF k > 1 /\ \E t \in Types : Full(b, t) THEN {t \in Types : Full(b, t)} ELSE Types
Collect == \E b \in Choice({x \in 1..B : dirs[x] # {}}), k \in Choice(1..4) : \E t \in Choice(Tests(b, k)) :
         /\ Log([op |-> "collect", b |-> b, t |-> t, ok |-> Full(b, t), who |-> Rank(b), row |-> Row(b, t),
                 par |-> Params(b), std |-> sp[b][t]])
         /\ UNCHANGED <<B, fam, tok, dirs, m, p, sm, sp>>
Even == \A b \in 2..B : Cardinality(dirs[b]) = Cardinality(dirs[1])
Study == \E t \in Choice({x \in Types : \A b \in 1..B : Full(b, x) /\ sp[b][x] # 0}) :
         /\ Even
         /\ Log([op |-> "study", t |-> t, rows |-> TLCEval([b \in 1..B |-> Row(b, t)]),
                 pars |-> TLCEval([b \in 1..B |-> Params(b)]), sm |-> sm, sp |-> TLCEval([b \in 1..B |-> sp[b][t]])])
         /\ UNCHANGED <<B, fam, tok, dirs, m, p, sm, sp>>

Next == \/ /\ ~done /\ Len(ops) < MaxOps
           /\ (Run \/ RunAll \/ Forget \/ Drop \/ Collect \/ Study)
           /\ done' = FALSE
        \/ /\ ~done /\ Len(ops) = MaxOps /\ done' = TRUE
           /\ UNCHANGED <<B, fam, tok, dirs, m, p, sm, sp, ops>>
Spec == Init /\ [][Next]_vars

Emit == done => PrintT("@@" \o ToJson([B |-> B, fam |-> fam, ops |-> ops]))

\* a realization only holds predictions of its own model; realizations never share a model
Own == \A b \in 1..B, i \in Idx, t \in Types : m[b][i] # 0 /\ p[b][i][t] # 0 => p[b][i][t] = m[b][i]
Apart == \A b \in 1..B, c \in 1..B, i \in Idx, j \in Idx, t \in Types :
            p[b][i][t] # 0 /\ p[b][i][t] = p[c][j][t] => b = c /\ i = j
Homes == \A b \in 1..B, i \in Idx : i \notin dirs[b] => m[b][i] = 0 /\ p[b][i] = None
===============================================================================
