----------------------------- MODULE Conditions ------------------------------
(* Data sets of a material at a grid of temperatures and compositions (C33).   *)
(* A condition is a pair <<i, j>> of grid positions. store holds the samples    *)
(* that lie on disk, asm the assembled data set of each type.                    *)
(*   gen       new data of every condition, replaces all earlier data; a sample   *)
(*             whose response fails is drawn again, up to ten times               *)
(*   drop      the user removes a condition                                      *)
(*   assemble  all samples of a type, or the same fraction of each condition      *)
(*   update    training on the assembled data sets                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, MaxT, MaxC, MaxOps, MaxN

VARIABLES P, store, asm, gens, known, ops, done
vars == <<P, store, asm, gens, known, ops, done>>

Choice(S) == IF Sim THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
Types == {"training", "validation", "testing_id"}
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

\* grid: sorted positions, degrees in 25..625 and hundredths in 0..100, ascending
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Grid(lo, hi, k) == {TLCEval(Sorted({IF Sim THEN RandomElement(lo..hi) ELSE lo + i : i \in 1..k}))}
Init == \E pool \in (IF Sim THEN 1..256 ELSE {1}) :
        \E nt \in Choice(1..MaxT), nc \in Choice(1..MaxC) :
        \E t \in Grid(25, 625, nt), c \in Grid(0, 100, nc) :
        /\ P = [t |-> t, c |-> c]
        /\ store = {} /\ asm = [k \in Types |-> [n |-> 0, src |-> {}, per |-> 0]] /\ gens = 0 /\ known = FALSE /\ ops = <<>> /\ done = FALSE

Conds == (1..Len(P.t)) \X (1..Len(P.c))
\* random paths among n samples with q quarters of them random
Rnd(n, q) == (n * q) \div 4
\* range of the grid neighbours of position i
Lo(s, i) == Min(s[Max(1, i - 1)], s[Min(Len(s), i + 1)])
Hi(s, i) == Max(s[Max(1, i - 1)], s[Min(Len(s), i + 1)])
Log(r) == ops' = Append(ops, r)

\* mostly all types
Gen == \E u \in Choice(1..3) : \E ts \in (IF Sim /\ u > 1 THEN {Types} ELSE Choice((SUBSET Types) \ {{}})), bad \in Choice({"trials", "outside", "none"}), z \in Choice(IF Sim THEN 1..5 ELSE {1}),
          f1 \in Choice(IF Sim THEN 1..9 ELSE {1}), k1 \in Choice(IF Sim THEN 1..12 ELSE {1}), k2 \in Choice(IF Sim THEN 1..12 ELSE {1}) :
       \E n \in {TLCEval([k \in ts |-> IF Sim THEN RandomElement(2..MaxN) ELSE MaxN])},
          q \in {TLCEval([k \in ts |-> IF Sim THEN RandomElement(0..4) ELSE 2])} :
       LET refused == \E k \in ts : Rnd(n[k], q[k]) < 1 \/ n[k] - Rnd(n[k], q[k]) < 1
           total == Cardinality(Conds)
           w == IF refused THEN "ratio" ELSE IF z > 1 THEN ""
                ELSE IF bad = "outside" /\ "training" \notin ts THEN "" ELSE IF bad = "none" THEN "" ELSE bad
       IN /\ gens' = gens + 1
          /\ known' = (w = "")
          /\ store' = IF w # "" THEN {} ELSE {[gen |-> gens + 1, cond |-> c, type |-> k, n |-> n[k]] : c \in Conds, k \in ts}
          /\ Log([op |-> "gen", types |-> [k \in ts |-> [n |-> n[k], q |-> q[k], rnd |-> Rnd(n[k], q[k])]], bad |-> w, gen |-> gens + 1,
                  fail |-> <<[at |-> k1, times |-> f1], [at |-> k1 + k2, times |-> 10 - f1]>>,
                  range |-> [i \in 1..Len(P.t) |-> <<Lo(P.t, i), Hi(P.t, i)>>], crange |-> [j \in 1..Len(P.c) |-> <<Lo(P.c, j), Hi(P.c, j)>>]])
          /\ UNCHANGED <<P, asm>>
Here(k) == {s \in store : s.type = k}
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN s.n + Sum(S \ {s})
Drop == \E c \in Choice({s.cond : s \in store}) :
        /\ Cardinality({s.cond : s \in store}) > 1
        /\ store' = {s \in store : s.cond # c}
        /\ Log([op |-> "drop", cond |-> c])
        /\ UNCHANGED <<P, asm, gens, known>>
\* fraction of each condition in quarters; 4 = all; anything else than a fraction = all
Assemble == \E u \in Choice(1..3) : \E ts \in (IF Sim /\ u > 1 THEN {{s.type : s \in store}} ELSE Choice((SUBSET {s.type : s \in store}) \ {{}})), red \in Choice(BOOLEAN) :
            \E f \in {TLCEval([k \in ts |-> IF ~red THEN "no" ELSE IF Sim THEN RandomElement({"no", "1", "2", "3", "4", "5", "neg", "int"}) ELSE "2"])} :
            \E per \in {TLCEval([k \in ts |-> LET m == (CHOOSE s \in Here(k) : TRUE).n
                                  w == CASE f[k] = "1" -> m \div 4 [] f[k] = "2" -> m \div 2 [] f[k] = "3" -> (3 * m) \div 4 [] OTHER -> m
                                  IN w])} :
            /\ \A k \in ts : per[k] > 0
            /\ asm' = [k \in Types |-> IF k \in ts THEN [n |-> per[k] * Cardinality(Here(k)), src |-> Here(k), per |-> per[k]] ELSE asm[k]]
            /\ Log([op |-> "assemble", types |-> [k \in ts |-> [f |-> f[k], per |-> per[k], n |-> per[k] * Cardinality(Here(k)),
                                                                conds |-> {s.cond : s \in Here(k)}]], red |-> red])
            /\ UNCHANGED <<P, store, gens, known>>
Update == \E tr \in Choice(BOOLEAN), m \in Choice(1..3) :
          /\ Log([op |-> "update", training |-> tr, m |-> m, raises |-> (\E k \in Types : asm[k].n = 0), sizes |-> [k \in Types |-> asm[k].n]])
          /\ UNCHANGED <<P, store, asm, gens, known>>
Next == /\ ~done
        /\ IF gens = 0 \/ (~known /\ Len(ops) < MaxOps - 1) THEN Gen
           ELSE \/ Gen
                \/ known /\ (Drop \/ Assemble)
                \/ known /\ Assemble
                \/ Update
        /\ done' = (Len(ops') >= MaxOps)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
\* data on disk comes from one generation, each condition and type once
OneGen == /\ \A s \in store : s.gen = gens
          /\ \A s, r \in store : (s.cond = r.cond /\ s.type = r.type) => s = r
\* every condition contributes the same number of samples, none from another type
Balanced == \A k \in Types : /\ asm[k].n = asm[k].per * Cardinality(asm[k].src)
                             /\ \A s \in asm[k].src : s.type = k /\ asm[k].per <= s.n
\* sampling ranges contain the condition itself and stay inside the grid
Ranges == /\ \A i \in 1..Len(P.t) : Lo(P.t, i) <= P.t[i] /\ P.t[i] <= Hi(P.t, i) /\ Lo(P.t, i) >= 25 /\ Hi(P.t, i) <= 625
          /\ \A j \in 1..Len(P.c) : Lo(P.c, j) <= P.c[j] /\ P.c[j] <= Hi(P.c, j)
Short == <<P, store, asm, gens, known, Len(ops), done>>
Emit == done => PrintT("@@" \o ToJson([P |-> P, ops |-> ops]))
=============================================================================
