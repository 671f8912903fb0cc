--------------------------------- MODULE State --------------------------------
(* Material states of a finite element structure (C12). Elements own a         *)
(* constitutive model and two states, current (trial) and last converged.      *)
(* Trial updates start from the element's own state with its own model and     *)
(* change nothing but the current state; only Commit (or an explicit write)    *)
(* changes the converged one. Materials are perfectly plastic along one        *)
(* deviatoric direction with yield level Yield[m], or elastic (Yield = Inf),   *)
(* or recurrent (no state kept), so states are exact integers.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NEl, MaxOps, Sim
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S
Elems == 1..NEl
Inf == 1000
Kinds == <<"elastic", "von_mises", "von_mises_mixed", "von_mises", "recurrent">>
Yield == <<Inf, 2, 3, 5, 0>>
Mats == 1..5
NoMat == 0
None == [q |-> 0, p |-> 0, t |-> 0, on |-> FALSE]
Virgin == [q |-> 0, p |-> 0, t |-> 0, on |-> TRUE]
Fresh(m) == IF Kinds[m] = "recurrent" THEN None ELSE Virgin

\* shared[e]: the two states of e may be one object (a commit that was asked not to copy)
VARIABLES mat, cur, last, shared, hist, n, done
vars == <<mat, cur, last, shared, hist, n, done>>

Init == /\ mat = [e \in Elems |-> NoMat] /\ cur = [e \in Elems |-> None]
        /\ last = [e \in Elems |-> None] /\ shared = [e \in Elems |-> FALSE] /\ hist = <<>> /\ n = 0 /\ done = FALSE

Log(op) == /\ hist' = Append(hist, op @@ [mat |-> mat', cur |-> cur', last |-> last'])
           /\ n' = n + 1 /\ done' = FALSE

Abs(x) == IF x < 0 THEN -x ELSE x
Step(m, s, d) ==
  LET tr == s.q + d
      over == IF Abs(tr) > Yield[m] THEN Abs(tr) - Yield[m] ELSE 0
  IN [q |-> IF tr > 0 THEN tr - over ELSE tr + over, p |-> s.p + over, t |-> s.t + d, on |-> TRUE]

\* a group of elements receives its own (new) model and starts from the virgin state
Assign == \E m \in Choice(Mats), es \in Choice(SUBSET Elems \ {{}}) :
  /\ mat' = [e \in Elems |-> IF e \in es THEN m ELSE mat[e]]
  /\ cur' = [e \in Elems |-> IF e \in es THEN Fresh(m) ELSE cur[e]]
  /\ last' = [e \in Elems |-> IF e \in es THEN Fresh(m) ELSE last[e]]
  /\ shared' = [e \in Elems |-> IF e \in es THEN FALSE ELSE shared[e]]
  /\ Log([op |-> "assign", m |-> m, es |-> es])

Stateful == {e \in Elems : mat[e] # NoMat /\ Kinds[mat[e]] # "recurrent"}
\* constitutive update of one element from its last converged (or current) state
Trial == \E e \in Choice(Stateful), d \in Choice(-4..4), from \in Choice({"last", "last", "current"}),
            copy \in Choice(BOOLEAN) :
  LET base == IF from = "last" THEN last[e] ELSE cur[e]
  IN /\ base.on
     /\ cur' = [cur EXCEPT ![e] = Step(mat[e], base, d)]
     /\ shared' = [shared EXCEPT ![e] = FALSE]
     /\ UNCHANGED <<mat, last>>
     /\ Log([op |-> "trial", e |-> e, d |-> d, from |-> from, copy |-> copy])

\* an explicit write of either state (value of another history)
Put == \E e \in Choice(Elems), tm \in Choice({"last", "current"}), copy \in Choice(BOOLEAN),
          q \in Choice(-2..2), k \in Choice(0..3) :
  LET p == IF mat[e] = NoMat \/ Yield[mat[e]] = Inf THEN 0 ELSE k   \* elastic: no plastic strain
      v == [q |-> q, p |-> p, t |-> q + p, on |-> TRUE]
  IN /\ e \in Stateful
     /\ cur' = IF tm = "current" THEN [cur EXCEPT ![e] = v] ELSE cur
     /\ last' = IF tm = "last" THEN [last EXCEPT ![e] = v] ELSE last
     /\ shared' = [shared EXCEPT ![e] = FALSE]
     /\ UNCHANGED mat
     /\ Log([op |-> "put", e |-> e, time |-> tm, copy |-> copy, v |-> v])

\* one state of one element, obtained without copying, is edited in place: no other state may see it
Edit == \E e \in Choice(Elems), tm \in Choice({"last", "current"}), deep \in Choice(BOOLEAN),
           q \in Choice(-2..2), k \in Choice(0..3) :
  LET p == IF mat[e] = NoMat \/ Yield[mat[e]] = Inf THEN 0 ELSE k
      v == [q |-> q, p |-> p, t |-> q + p, on |-> TRUE]
  IN /\ e \in Stateful /\ ~shared[e]
     /\ (IF tm = "current" THEN cur[e].on ELSE last[e].on)
     /\ cur' = IF tm = "current" THEN [cur EXCEPT ![e] = v] ELSE cur
     /\ last' = IF tm = "last" THEN [last EXCEPT ![e] = v] ELSE last
     /\ UNCHANGED <<mat, shared>>
     /\ Log([op |-> "edit", e |-> e, time |-> tm, deep |-> deep, v |-> v])

Commit == \E copy \in Choice(BOOLEAN) :
  /\ last' = cur /\ UNCHANGED <<mat, cur>>
  /\ shared' = [e \in Elems |-> ~copy /\ cur[e].on]
  /\ Log([op |-> "commit", copy |-> copy])

\* unknown times and unknown models are rejected and change nothing
Reject == \E what \in Choice({"get", "put", "model"}), e \in Choice(Elems) :
  /\ UNCHANGED <<mat, cur, last, shared>> /\ Log([op |-> "reject", what |-> what, e |-> e])

Finish == n = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<mat, cur, last, shared, hist, n>>
Next == \/ n < MaxOps /\ (IF \E e \in Elems : mat[e] # NoMat
                           THEN Assign \/ Trial \/ Trial \/ Put \/ Edit \/ Edit \/ Commit \/ Reject ELSE Assign)
        \/ Finish
Spec == Init /\ [][Next]_vars

\* design properties
Op == hist'[Len(hist')]
Moved == Len(hist') > Len(hist)
TrialLeavesConverged == [][(Moved /\ Op.op \in {"trial", "reject"}) => last' = last]_vars
CommitExact == [][(Moved /\ Op.op = "commit") => (last' = cur /\ cur' = cur)]_vars
Local == [][(Moved /\ Op.op \in {"trial", "put", "edit"}) =>
              \A f \in Elems \ {Op.e} : cur'[f] = cur[f] /\ last'[f] = last[f]]_vars
Admissible == \A i \in 1..Len(hist) : hist[i].op = "trial" =>
                Abs(hist[i].cur[hist[i].e].q) <= Yield[hist[i].mat[hist[i].e]]
View == <<mat, cur, last, shared, n, done>>

Emit == done => PrintT("@@" \o ToJson([ops |-> hist]))
===============================================================================
