------------------------------- MODULE Training -------------------------------
(* Training runs of a model in one model directory (C02, C03): epochs, batches,*)
(* loss and learning-rate histories, numbered / best / initial states, early   *)
(* stopping on a validation loss, parameter-convergence stopping, resuming.    *)
(* Losses are nondeterministic integer levels (the data decide them); versions *)
(* number the parameter values: each optimizer step makes a fresh one.         *)
EXTENDS Store

CONSTANTS MaxRuns, NMax, Batches, Every, Scheds, Levels, VLevels, Early, Freqs, Trigs,
          ParamStop, Resumes, Sim

Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S
M == "A"

VARIABLES phase, cfg, epoch, batch, ver, top, ostep, files, optim, losses, vals, vhist,
          minval, nnot, bval, stop, chg, log, runs
vars == <<phase, cfg, epoch, batch, ver, top, ostep, files, optim, losses, vals, vhist,
          minval, nnot, bval, stop, chg, log, runs>>

\* learning-rate factor (in 1/4096) used during epoch e
LR(s, e) == CASE s = "none" -> 4096
              [] s = "steplr" -> 4096 \div (2 ^ (e \div 2))      \* halves every 2 epochs
              [] s = "explr" -> 4096 \div (2 ^ e)               \* halves every epoch
              [] s = "linlr" -> 512 * (4 + (IF e > 4 THEN 4 ELSE e))  \* 1/2 -> 1 in 4 epochs

Sum(s) == LET RECURSIVE R(_) R(i) == IF i = 0 THEN 0 ELSE s[i] + R(i - 1) IN R(Len(s))
EpochLoss(i) == Sum(losses[i])            \* number of batches times the mean
MinLoss == Min({EpochLoss(i) : i \in 1..Len(losses)})

Init == /\ phase = "idle" /\ cfg = [nmax |-> 0] /\ epoch = 0 /\ batch = 0 /\ ver = 0 /\ top = 0
        /\ ostep = 0 /\ files = {} /\ optim = {} /\ losses = <<>> /\ vals = <<>> /\ vhist = <<>>
        /\ minval = None /\ nnot = 0 /\ bval = [v |-> None, e |-> None, o |-> 0]
        /\ stop = "no" /\ chg = <<>> /\ log = <<>> /\ runs = <<>>

Configs == [nmax : NMax, nb : Batches, every : Every, sched : Scheds, early : Early,
            freq : Freqs, trig : Trigs, pstop : ParamStop]

\* begin a run: fresh parameters, or those of a stored state
Begin == /\ phase = "idle" /\ Len(runs) < MaxRuns
         /\ \E c \in Choice(Configs), w \in Choice(IF runs = <<>> THEN {"new"} ELSE Resumes),
               ep \in Choice(IF runs = <<>> THEN {None} ELSE Eps(files, M)) :
              LET t == Target(files, M, w, ep) IN
              /\ w # "ep" => ep = Max({None} \cup Eps(files, M)) \/ Sim
              /\ w # "new" => Has(files, M, t.k, t.e)
              /\ IF w = "new"
                   THEN ver' = top + 1 /\ top' = top + 1 /\
                        files' = Stored(files, M, "init", None, TRUE, top + 1)
                   ELSE /\ ver' = Get(files, M, t.k, t.e).v /\ top' = top
                        /\ files' = Stored(AfterLoad(files, M, w, TRUE, t), M, "init", None, TRUE,
                                           Get(files, M, t.k, t.e).v)
              /\ cfg' = [c EXCEPT !.freq = IF c.early THEN c.freq ELSE 1,
                                  !.trig = IF c.early \/ c.pstop THEN c.trig ELSE 1]
                        @@ [load |-> w, start |-> ver', ep |-> ep, f0 |-> files', o0 |-> optim]
              /\ log' = <<>> /\ phase' = "train"
         /\ epoch' = 0 /\ batch' = 0 /\ ostep' = 0 /\ losses' = <<<<>>>> /\ vals' = <<>>
         /\ vhist' = <<>> /\ minval' = None /\ nnot' = 0
         /\ bval' = [v |-> None, e |-> None, o |-> 0] /\ stop' = "no" /\ chg' = <<>>
         /\ UNCHANGED <<optim, runs>>

Step == /\ phase = "train"
        /\ \E l \in Choice(Levels) : losses' = [losses EXCEPT ![epoch + 1] = Append(@, l * l)]
        /\ top' = top + 1 /\ ver' = top + 1 /\ ostep' = ostep + 1
        /\ batch' = batch + 1
        /\ phase' = IF batch + 1 = cfg.nb THEN "save" ELSE "train"
        /\ UNCHANGED <<cfg, epoch, files, optim, vals, vhist, minval, nnot, bval, stop, chg,
                       log, runs>>

O(fs, kind, e, o) == Stored(fs, M, kind, e, TRUE, o)
SaveEpoch ==
  /\ phase = "save"
  /\ LET best == EpochLoss(epoch + 1) <= MinLoss
         ev   == cfg.every # 0 /\ epoch % cfg.every = 0
         f1   == IF ev THEN Stored(files, M, "epoch", epoch, TRUE, ver) ELSE files
         o1   == IF ev THEN O(optim, "epoch", epoch, ostep) ELSE optim
     IN /\ files' = IF best THEN Stored(f1, M, "best", epoch, TRUE, ver) ELSE f1
        /\ optim' = IF best THEN O(o1, "best", epoch, ostep) ELSE o1
  /\ phase' = IF cfg.early /\ epoch % cfg.freq = 0 THEN "validate" ELSE "decide"
  /\ UNCHANGED <<cfg, epoch, batch, ver, top, ostep, losses, vals, vhist, minval, nnot, bval,
                 stop, chg, log, runs>>

\* relative improvement tolerance 2/5
Validate ==
  /\ phase = "validate"
  /\ \E l \in Choice(VLevels) :
       LET v == l * l
           better == minval = None \/ v < minval
           enough == minval = None \/ 5 * (minval - v) > 2 * minval
           gap == epoch - Len(vhist)
           nn == IF minval = None THEN 0 ELSE IF better /\ enough THEN 0 ELSE nnot + 1
       IN /\ vals' = Append(vals, l)
          /\ vhist' = (IF vhist = <<>> THEN <<>>
                       ELSE vhist \o [i \in 1..gap |-> vhist[Len(vhist)]]) \o <<v>>
          /\ minval' = IF better THEN v ELSE minval
          /\ nnot' = nn
          /\ bval' = IF better THEN [v |-> ver, e |-> epoch, o |-> ostep] ELSE bval
          /\ stop' = IF nn >= cfg.trig THEN "early" ELSE "no"
          /\ IF nn >= cfg.trig
               THEN /\ ver' = (IF better THEN ver ELSE bval.v)
                    /\ ostep' = (IF better THEN ostep ELSE bval.o)
                    /\ files' = Stored(files, M, "best", bval'.e, TRUE, bval'.v)
                    /\ optim' = O(optim, "best", bval'.e, bval'.o)
               ELSE UNCHANGED <<ver, ostep, files, optim>>
  /\ phase' = "decide"
  /\ UNCHANGED <<cfg, epoch, batch, top, losses, chg, log, runs>>

\* parameter changes per epoch are "big" in the first epoch and zero afterwards (the driver
\* saturates the parameters at their bounds), see ParamConv for the criterion itself
Decide ==
  /\ phase = "decide"
  /\ chg' = Append(chg, IF epoch = 0 THEN 1 ELSE 0)
  /\ LET ps == /\ cfg.pstop /\ Len(chg') >= cfg.trig
               /\ \A i \in (Len(chg') - cfg.trig + 1)..Len(chg') : chg'[i] = 0
         last == epoch >= cfg.nmax \/ stop = "early" \/ ps
     IN /\ log' = Append(log, [files |-> files, optim |-> optim])
        /\ phase' = IF last THEN "end" ELSE "train"
        /\ stop' = IF stop = "early" THEN "early" ELSE IF ps THEN "params" ELSE "no"
        /\ epoch' = IF last THEN epoch ELSE epoch + 1
        /\ losses' = IF last THEN losses ELSE Append(losses, <<>>)
  /\ batch' = 0
  /\ UNCHANGED <<cfg, ver, top, ostep, files, optim, vals, vhist, minval, nnot, bval, runs>>

End ==
  /\ phase = "end"
  /\ files' = Stored(files, M, "epoch", epoch, TRUE, ver)
  /\ optim' = O(optim, "epoch", epoch, ostep)
  /\ runs' = Append(runs, [cfg |-> cfg, losses |-> losses, vals |-> vals, vhist |-> vhist,
       epochs |-> epoch + 1, final |-> ver, top |-> top, stop |-> stop, log |-> log,
       files |-> files', optim |-> optim', best |-> MinLoss,
       bestepoch |-> Min({i \in 1..Len(losses) : EpochLoss(i) = MinLoss}) - 1,
       lr |-> [i \in 1..(epoch + 1) |-> LR(cfg.sched, i - 1)],
       lrh |-> [i \in 1..(epoch + 1) |-> LR(cfg.sched, i)]])
  /\ phase' = "idle"
  /\ UNCHANGED <<cfg, epoch, batch, ver, top, ostep, losses, vals, vhist, minval, nnot, bval,
                 stop, chg, log>>

Finish == phase = "idle" /\ Len(runs) = MaxRuns /\ phase' = "done"
          /\ UNCHANGED <<cfg, epoch, batch, ver, top, ostep, files, optim, losses, vals, vhist,
                         minval, nnot, bval, stop, chg, log, runs>>

Next == Begin \/ Step \/ SaveEpoch \/ Validate \/ Decide \/ End \/ Finish
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
AfterRun == phase \in {"idle", "done"} /\ runs # <<>>
R == runs[Len(runs)]
UniqueBest == Cardinality({g \in files : g.kind = "best"}) <= 1
\* the best state is the last epoch attaining the minimum recorded loss
BestIsMinimum ==
  AfterRun /\ R.stop # "early" =>
    \E g \in files : /\ g.kind = "best" /\ Sum(R.losses[g.e + 1]) = R.best
                     /\ \A i \in (g.e + 2)..Len(R.losses) : Sum(R.losses[i]) > R.best
\* after early stopping the best and the final states are those of the lowest validation loss
EarlyRestoresBest ==
  AfterRun /\ R.stop = "early" =>
    /\ \E g \in files : g.kind = "best" /\ g.v = R.final
    /\ \E g \in files : g.kind = "ep" /\ g.e = R.epochs - 1 /\ g.v = R.final
    /\ LET B == CHOOSE g \in files : g.kind = "best"
       IN R.vhist[B.e + 1] = Min({R.vhist[i] : i \in 1..Len(R.vhist)})
AllEpochs == AfterRun /\ R.stop = "no" => R.epochs = R.cfg.nmax + 1 /\ Len(R.losses) = R.epochs
Bounded == epoch <= cfg.nmax
FirstRunNumbered ==
  AfterRun /\ Len(runs) = 1 /\ R.stop # "early" =>
    Eps(files, M) = {e \in 0..(R.epochs - 1) : R.cfg.every # 0 /\ e % R.cfg.every = 0}
                    \cup {R.epochs - 1}
ValidationHistoryLength ==
  AfterRun /\ R.cfg.early => Len(R.vhist) = ((R.epochs - 1) \div R.cfg.freq) * R.cfg.freq + 1
NoEarlyStopBeforeTrigger ==
  stop = "early" => nnot >= cfg.trig /\ Len(vals) > cfg.trig

Emit == phase = "done" => PrintT("@@" \o ToJson(runs))
===============================================================================
