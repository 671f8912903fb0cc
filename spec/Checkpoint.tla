------------------------------ MODULE Checkpoint ------------------------------
(* Model state files of several models sharing one directory (C01).           *)
(* A stored state is a record [m, kind, e, v]: model, kind (init, def, ep,    *)
(* best), epoch (None when unnumbered) and the version of the parameters.     *)
EXTENDS Store

CONSTANTS Models, Epochs, MaxLen, Sim

VARIABLES files,     \* set of stored model states
          optim,     \* set of stored optimizer states
          cur,       \* model -> version of the parameters held in memory
          nver,      \* fresh version counter
          bestv,     \* ghost: model -> version most recently saved as best
          hist       \* operations performed and what must be observed
vars == <<files, optim, cur, nver, bestv, hist>>

Init == /\ files = {} /\ optim = {} /\ nver = 1
        /\ cur = [m \in Models |-> 0] /\ bestv = [m \in Models |-> None]
        /\ hist = <<>>

Log(o, err, ret) == hist' = Append(hist,
  [o |-> o, err |-> err, ret |-> ret, cur |-> cur', files |-> files', optim |-> optim'])

\* the model is changed (a training step) and then saved
Save(m, kind, e, rm, training) ==
  /\ nver' = nver + 1
  /\ cur' = [cur EXCEPT ![m] = nver]
  /\ files' = Stored(files, m, kind, e, rm, nver)
  /\ optim' = IF training /\ kind # "init" THEN Stored(optim, m, kind, e, rm, nver) ELSE optim
  /\ bestv' = IF kind = "best" THEN [bestv EXCEPT ![m] = nver] ELSE bestv
  /\ Log([op |-> IF training THEN "save_training" ELSE "save", m |-> m, kind |-> kind,
          e |-> e, rm |-> rm, v |-> nver], FALSE, None)

Load(m, what, e, rm) ==
  LET t == Target(files, m, what, e) IN
  /\ UNCHANGED <<nver, optim, bestv>>
  /\ IF Has(files, m, t.k, t.e)
       THEN /\ cur' = [cur EXCEPT ![m] = Get(files, m, t.k, t.e).v]
            /\ files' = AfterLoad(files, m, what, rm, t)
            /\ Log([op |-> "load", m |-> m, kind |-> what, e |-> e, rm |-> rm, v |-> 0],
                   FALSE, t.ret)
       ELSE /\ UNCHANGED <<cur, files>>
            /\ Log([op |-> "load", m |-> m, kind |-> what, e |-> e, rm |-> rm, v |-> 0],
                   TRUE, None)

Finish == Len(hist) = MaxLen /\ hist' = Append(hist, "end")
          /\ UNCHANGED <<files, optim, cur, nver, bestv>>

Ops == [op : {"save", "save_training"}, m : Models, kind : {"init"}, e : {None}, rm : {TRUE}]
  \cup [op : {"save", "save_training"}, m : Models, kind : {"epoch", "default", "best"},
        e : Epochs, rm : BOOLEAN]
  \cup [op : {"save", "save_training"}, m : Models, kind : {"default", "best"}, e : {None}, rm : {TRUE}]
  \cup [op : {"load"}, m : Models, kind : {"init", "best", "last", "def"}, e : {None}, rm : BOOLEAN]
  \cup [op : {"load"}, m : Models, kind : {"ep"}, e : Epochs, rm : BOOLEAN]

\* exhaustively, or (Sim) one random operation per step
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S

Step == /\ Len(hist) < MaxLen
        /\ \E o \in Choice(Ops) :
             IF o.op = "load" THEN Load(o.m, o.kind, o.e, o.rm)
                              ELSE Save(o.m, o.kind, o.e, o.rm, o.op = "save_training")

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
View == <<files, cur, bestv, Len(hist)>>

-------------------------------------------------------------------------------
UniqueBest == \A m \in Models : Cardinality({g \in files : g.m = m /\ g.kind = "best"}) <= 1
BestIsLastSaved == \A g \in files : g.kind = "best" => g.v = bestv[g.m]
BestSurvives == \A m \in Models : bestv[m] # None => \E g \in files : g.m = m /\ g.kind = "best"
KeysUnique == \A g, h \in files : Key(g) = Key(h) => g = h
\* only numbered states (or a superseded best) ever disappear, and only those of one model
OnlyNumberedLost ==
  [][ \A g \in files : (~\E h \in files' : Key(h) = Key(g)) =>
        \/ g.kind = "ep"
        \/ g.kind = "best" /\ bestv'[g.m] # bestv[g.m] ]_vars
FailedLoadInert ==
  [][ Step /\ hist'[Len(hist')].err => files' = files /\ cur' = cur /\ optim' = optim ]_vars
OneModelAtATime ==
  [][ \A m \in Models : Step /\ hist'[Len(hist')].o.m # m =>
        /\ cur'[m] = cur[m]
        /\ {g \in files' : g.m = m} = {g \in files : g.m = m} ]_vars

Emit == (Len(hist) = MaxLen + 1) => PrintT("@@" \o ToJson(SubSeq(hist, 1, MaxLen)))
===============================================================================
