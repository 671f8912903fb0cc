------------------------------ MODULE Studies --------------------------------
(* Training and prediction studies of a local model (C35): a case with several   *)
(* data sets (size[d] paths of len[d] steps each), a model folder and one folder of prediction    *)
(* sets per data set. A training is a number; the model folder holds the number    *)
(* of the last training (0 = none). Prediction set j of data set d records the     *)
(* training whose best state made it and whether its sample files are kept.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, Families, NData, MaxOps, MaxEpochs

VARIABLES fam, size, len, tok, model, sets, ops, done
vars == <<fam, size, len, tok, model, sets, ops, done>>

Choice(S) == IF Sim THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
D == 1..NData
\* families that need a validation data set for early stopping
Needs(f) == f # "rc"

Init == \E pool \in (IF Sim THEN 1..256 ELSE {1}) :
        /\ fam \in Choice(Families)
        /\ size = TLCEval([d \in D |-> IF Sim THEN RandomElement(1..7) ELSE d])
        /\ len = TLCEval([d \in D |-> IF Sim THEN RandomElement(2..6) ELSE d + 1])
        /\ tok = 0 /\ model = 0 /\ sets = [d \in D |-> <<>>] /\ ops = <<>> /\ done = FALSE
Log(r) == ops' = Append(ops, r)

Train == \E d \in Choice(D), v \in Choice(0..NData), z \in Choice(1..4), e \in Choice(2..MaxEpochs) :
         \E w \in {IF v = 0 /\ z > 1 /\ Sim THEN d ELSE v} :
         LET ok == w # 0 \/ ~Needs(fam) IN
         /\ tok' = IF ok THEN tok + 1 ELSE tok
         \* the folder of the model is emptied for a training, also for one that is refused
         /\ model' = IF ok THEN tok + 1 ELSE 0
         /\ Log([op |-> "train", d |-> d, v |-> w, e |-> e, ok |-> ok, model |-> model'])
         /\ UNCHANGED sets
Predict == \E d \in Choice(D), r \in Choice(BOOLEAN) :
           /\ sets' = IF model # 0 THEN [sets EXCEPT ![d] = Append(@, [by |-> model, kept |-> ~r])] ELSE sets
           /\ Log([op |-> "predict", d |-> d, remove |-> r, ok |-> (model # 0), by |-> model, sets |-> sets'[d]])
           /\ UNCHANGED <<tok, model>>
\* the data of a hybrid model's components are fitted to a data set
Fit == \E d \in Choice({x \in D : size[x] * len[x] > 1}), o \in Choice({"strain_to_stress", "strain_to_pstrain", "strain_to_stressvd", "strain_i1_i2_to_stressvd"}) :
       /\ fam = "hybrid"
       /\ Log([op |-> "fit", d |-> d, o |-> o])
       /\ UNCHANGED <<tok, model, sets>>
Next == /\ ~done /\ UNCHANGED <<fam, size, len>>
        /\ IF ops = <<>> /\ Sim /\ size[1] < 7 THEN Train ELSE Train \/ Predict \/ Predict \/ Fit
        /\ done' = (Len(ops') >= MaxOps)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
Known == model <= tok /\ \A d \in D : \A i \in 1..Len(sets[d]) : sets[d][i].by \in 1..tok
\* newer sets come from newer trainings
Aged == \A d \in D : \A i, j \in 1..Len(sets[d]) : i < j => sets[d][i].by <= sets[d][j].by
\* a prediction set stays as it was made, whatever follows
Kept == [][\A d \in D : Len(sets'[d]) >= Len(sets[d]) /\ SubSeq(sets'[d], 1, Len(sets[d])) = sets[d]]_vars
\* a refused training leaves no model to predict with
Refused == \A i \in 1..Len(ops) : (ops[i].op = "train" /\ ~ops[i].ok) => (ops[i].model = 0 /\ ops[i].v = 0)
Short == <<fam, tok, model, sets, Len(ops), done>>
Emit == done => PrintT("@@" \o ToJson([fam |-> fam, size |-> size, len |-> len, ops |-> ops]))
=============================================================================
