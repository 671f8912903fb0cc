------------------------------ MODULE Patches --------------------------------
(* Random material patches, their simulations and the local paths collected     *)
(* from them (C34). A folder k (0, 1, ...; -1 = a patch generated alone) holds   *)
(*   geo    the patch it was generated with     kept  the patch saved in it       *)
(*   sim    the simulation run on it, 0 = none, -1 = one that failed halfway       *)
(* runs counts simulations, geos generated patches.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, MaxN, MaxOps, MaxId

VARIABLES fold, geos, runs, ops, done
vars == <<fold, geos, runs, ops, done>>

Choice(S) == IF Sim THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
None == [geo |-> 0, kept |-> 0, sim |-> 0]
Ids == -1..MaxId
Has(f, k) == k \in DOMAIN f
Get(f, k) == IF Has(f, k) THEN f[k] ELSE None
Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Init == /\ fold = [x \in {} |-> None] /\ geos = 0 /\ runs = 0 /\ ops = <<>> /\ done = FALSE
Log(r) == ops' = Append(ops, r)

\* patches 0..n-1 one after the other, until one cannot be loaded or its simulation fails
RECURSIVE Step(_, _, _, _, _, _, _, _, _)
Step(f, g, r, i, n, load, save, bad, left) ==
  IF i = n THEN [f |-> f, g |-> g, r |-> r, ok |-> TRUE, made |-> i]
  ELSE LET k == IF n = 1 THEN -1 ELSE i
           old == Get(f, k)
           geo == IF load THEN old.kept ELSE g + 1
           kept == IF save THEN geo ELSE IF load THEN old.kept ELSE 0
       IN IF load /\ old.kept = 0 THEN [f |-> Put(f, k, None), g |-> g, r |-> r, ok |-> FALSE, made |-> i]
          ELSE IF bad = i THEN [f |-> Put(f, k, [geo |-> geo, kept |-> kept, sim |-> left]), g |-> IF load THEN g ELSE g + 1, r |-> r + 1, ok |-> FALSE, made |-> i]
          ELSE Step(Put(f, k, [geo |-> geo, kept |-> kept, sim |-> r + 1]), IF load THEN g ELSE g + 1, r + 1, i + 1, n, load, save, bad, left)
Generate == \E n \in Choice(1..MaxN), load \in Choice(BOOLEAN), save \in Choice(BOOLEAN), bad \in Choice(0..MaxN), z \in Choice(1..6) :
            \E ld \in {load /\ fold # [x \in {} |-> None]}, bb \in {IF z <= 2 THEN bad ELSE 99} :
            \E e \in {TLCEval(Step(fold, geos, runs, 0, n, ld, save, bb, IF z = 1 THEN -1 ELSE 0))} :
            /\ fold' = e.f /\ geos' = e.g /\ runs' = e.r
            /\ Log([op |-> "generate", n |-> n, load |-> ld, save |-> save, bad |-> bb, half |-> (z = 1), ok |-> e.ok, made |-> e.made,
                    first |-> runs + 1, folds |-> {[k |-> k, v |-> e.f[k]] : k \in DOMAIN e.f}])
\* folders get other numbers (of one or several digits), all of them at once
Wide == {0, 1, 2, 9, 10, 11, 19, 20, 99, 100, 101, MaxId}
Move == \E K \in Choice(IF Sim THEN {DOMAIN fold \ {-1}} ELSE {{k} : k \in DOMAIN fold \ {-1}}), w \in Choice(1..2) :
        \E to \in {TLCEval([k \in K |-> IF Sim THEN RandomElement(IF w = 1 THEN Wide ELSE 0..MaxId) ELSE MaxId])} :
        /\ K # {} /\ \A a, b \in K : a # b => to[a] # to[b]
        /\ \A k \in K : to[k] \notin DOMAIN fold \ K
        /\ fold' = TLCEval([x \in (DOMAIN fold \ K) \cup {to[k] : k \in K} |->
                              IF \E k \in K : to[k] = x THEN fold[CHOOSE k \in K : to[k] = x] ELSE fold[x]])
        /\ Log([op |-> "move", moves |-> {[from |-> k, to |-> to[k]] : k \in K}])
        /\ UNCHANGED <<geos, runs>>
Remove == \E k \in Choice(DOMAIN fold) :
        /\ fold' = TLCEval([x \in DOMAIN fold \ {k} |-> fold[x]])
        /\ Log([op |-> "remove", k |-> k])
        /\ UNCHANGED <<geos, runs>>
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Order(S \ {m})
Used == Order(DOMAIN fold \ {-1})
Build == /\ \A k \in DOMAIN fold : fold[k].sim # -1
         /\ \E u \in {TLCEval(Used)} :
            Log([op |-> "build", ids |-> u, sims |-> [i \in 1..Len(u) |-> fold[u[i]].sim],
                 ok |-> (Len(u) > 0 /\ \A i \in 1..Len(u) : fold[u[i]].sim > 0)])
         /\ UNCHANGED <<fold, geos, runs>>
Next == /\ ~done
        /\ IF ops = <<>> THEN Generate ELSE \/ Generate \/ Move \/ Remove \/ Build \/ (ops[Len(ops)].op # "build" /\ Build)
        /\ done' = (Len(ops') >= MaxOps)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
\* no two folders hold the same simulation, none a simulation or patch of the future
Own == /\ \A a, b \in DOMAIN fold : (a # b /\ fold[a].sim > 0) => fold[a].sim # fold[b].sim
       /\ \A a \in DOMAIN fold : fold[a].sim <= runs /\ fold[a].geo <= geos
\* what is saved in a folder is the patch it was last generated with
Saved == \A a \in DOMAIN fold : fold[a].kept # 0 => fold[a].kept = fold[a].geo
\* a data set lists the folders in increasing order, each once
Ordered == \A i \in 1..Len(ops) : ops[i].op = "build" => \A a, b \in 1..Len(ops[i].ids) : a < b => ops[i].ids[a] < ops[i].ids[b]
Short == <<fold, Len(ops), done>>
Emit == done => PrintT("@@" \o ToJson([ops |-> ops]))
=============================================================================
