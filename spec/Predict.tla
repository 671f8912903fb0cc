------------------------------- MODULE Predict --------------------------------
(* Predictions with stored model states (C06). Parameter versions identify the *)
(* model; samples are numbered; every prediction fills a fresh results folder. *)
EXTENDS Store

CONSTANTS Ns, BatchSizes, MaxOps, Epochs, Sim
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S
M == "A"

VARIABLES files, mem, dirs, top, hist, n, done
vars == <<files, mem, dirs, top, hist, n, done>>

\* state "init" (version 1) is stored, the model in memory has version 1, no results yet
Init == /\ files = Stored({}, M, "init", None, TRUE, 1) /\ mem = 1 /\ dirs = {} /\ top = 1
        /\ hist = <<>> /\ n = 0 /\ done = FALSE

Log(r) == /\ hist' = Append(hist, r @@ [files |-> files', dirs |-> dirs', mem |-> mem'])
          /\ n' = n + 1 /\ done' = FALSE

Save == \E k \in Choice({"epoch", "best", "default"}), e \in Choice(Epochs) :
          LET ee == IF k = "default" THEN None ELSE e IN
          /\ top' = top + 1 /\ mem' = top + 1
          /\ files' = Stored(files, M, IF k = "default" THEN "epoch" ELSE k, ee, FALSE, top + 1)
          /\ UNCHANGED dirs
          /\ Log([op |-> "save", k |-> k, e |-> ee, v |-> top + 1])

Nat0 == 0..(MaxOps + 1)
NewDir == Min(Nat0 \ {d.k : d \in dirs})
\* use: "mem" predicts with the model in memory, otherwise with the stored state
PredictAct ==
  \E use \in Choice({"mem", "init", "def", "ep", "last", "best"}), e \in Choice(Epochs),
     ns \in Choice(Ns), bs \in Choice(BatchSizes), truth \in Choice({TRUE, TRUE, FALSE}),
     write \in Choice(BOOLEAN), nl \in Choice(BOOLEAN) :
    LET t == Target(files, M, use, e)
        ok == use = "mem" \/ Has(files, M, t.k, t.e)
        v == IF use = "mem" THEN mem ELSE Get(files, M, t.k, t.e).v
        r == [op |-> "predict", use |-> use, e |-> e, ns |-> ns, bs |-> bs, truth |-> truth,
              write |-> write, nl |-> nl, ok |-> ok]
    IN /\ UNCHANGED <<files, mem, top>>
       /\ IF ~ok THEN UNCHANGED dirs /\ Log(r @@ [v |-> 0, k |-> None])
          ELSE /\ dirs' = IF write THEN dirs \cup {[k |-> NewDir, v |-> v, ns |-> ns,
                                                   truth |-> truth, nl |-> nl]} ELSE dirs
               /\ Log(r @@ [v |-> v, k |-> IF write THEN NewDir ELSE None])
Delete == /\ dirs # {}
          /\ \E d \in Choice(dirs) : /\ UNCHANGED <<files, mem, top>>
                                     /\ dirs' = dirs \ {d}
                                     /\ Log([op |-> "delete", k |-> d.k])

Finish == n >= MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<files, mem, dirs, top, hist, n>>
Next == (n < MaxOps /\ (Save \/ PredictAct \/ PredictAct \/ Delete)) \/ Finish
Spec == Init /\ [][Next]_vars

\* results are never overwritten, stored states never touched by a prediction
NeverOverwritten == [][hist' # hist /\ hist'[Len(hist')].op = "predict" =>
                         dirs \subseteq dirs' /\ files' = files /\ mem' = mem]_vars
DistinctDirs == \A a, b \in dirs : a.k = b.k => a = b
View == <<files, mem, dirs, n, done>>
Emit == done => PrintT("@@" \o ToJson(hist))
===============================================================================
