-------------------------------- MODULE Pruning -------------------------------
(* Pruning of a data set (C29). The development set shrinks: every step holds   *)
(* out a random test part, trains on the rest and moves the best predicted      *)
(* samples of the test part to the unused set; every iteration trains and tests *)
(* a model on what is left. A run is a history of observable events:            *)
(*   step  a model trained on tr, validated on va, tested on te (losses lo)     *)
(*   iter  a model trained on tr, validated on va, tested on the sets in ts     *)
(*   end   the run stops                                                        *)
(* Why(ev) is "" when the event is allowed in the current state, otherwise the   *)
(* rule it breaks: exploration takes every allowed event, recorded runs of the   *)
(* code are judged event by event with the same operator.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,      \* "explore", "cases" or "check"
          MaxN

VARIABLES par, dev, unused, iter, pend, stage, k, at, why
vars == <<par, dev, unused, iter, pend, stage, k, at, why>>

Ran(s) == {s[i] : i \in 1..Len(s)}
Full == 1..par.n
NPrun(n) == IF par.sched = "constant" THEN par.np ELSE (par.np * n) \div par.den
\* sizes a split of n samples may have: the fraction, rounded either way
Fits(size, frac, n) == size - (frac * n) \div par.den \in {0, 1}
\* a step with a test part of t samples is inadmissible
Stop(n, t) == \/ n <= par.nmin
              \/ n * par.den < par.rmin * par.n
              \/ t < par.tmin
              \/ NPrun(n) * par.den > par.rmax * t
\* on the size ratio itself either answer is right
Tie(n) == n * par.den = par.rmin * par.n

Low(S, te, lo) == LET val(x) == lo[CHOOSE i \in 1..Len(te) : te[i] = x]
                  IN \A x \in S : \A y \in Ran(te) \ S : val(x) <= val(y)

NoDup(s) == Cardinality(Ran(s)) = Len(s)

Why(ev) ==
  IF stage = "ended" THEN "an event after the end"
  ELSE CASE ev.e = "step" ->
    LET n == Cardinality(dev) IN
    IF stage # "ready" \/ iter = 0 THEN "a pruning step out of turn"
    ELSE IF iter > par.nmax THEN "more iterations than the maximum"
    ELSE IF ~(NoDup(ev.tr) /\ NoDup(ev.va) /\ NoDup(ev.te)) THEN "a sample twice in a part of a pruning step"
    ELSE IF Ran(ev.tr) \cap Ran(ev.te) # {} THEN "the model of a pruning step is tested on samples it was trained on"
    ELSE IF Ran(ev.tr) \cap Ran(ev.va) # {} THEN "the model of a pruning step is validated on samples it was trained on"
    ELSE IF Ran(ev.va) \cap Ran(ev.te) # {} THEN "the model of a pruning step is tested on samples it was validated on"
    ELSE IF Ran(ev.tr) \cup Ran(ev.va) \cup Ran(ev.te) # dev THEN "the parts of a pruning step are not the development set"
    ELSE IF ~(Fits(Len(ev.tr), par.s3[1], n) /\ Fits(Len(ev.va), par.s3[2], n) /\ Fits(Len(ev.te), par.s3[3], n))
         THEN "sizes of the parts of a pruning step"
    ELSE IF Stop(n, Len(ev.te)) THEN "a pruning step that the stopping rules exclude"
    ELSE ""
  [] ev.e = "iter" ->
    LET new == Ran(ev.tr) \cup Ran(ev.va)  gone == dev \ new IN
    IF stage = "ready" /\ iter > 0 THEN "an iteration without a pruning step"
    ELSE IF ~(NoDup(ev.tr) /\ NoDup(ev.va)) THEN "a sample twice in a part of an iteration"
    ELSE IF Ran(ev.tr) \cap Ran(ev.va) # {} THEN "the model of an iteration is validated on samples it was trained on"
    ELSE IF ~(new \subseteq dev) THEN "an iteration uses samples that are not in the development set"
    ELSE IF iter = 0 /\ gone # {} THEN "the first iteration does not use the full data set"
    ELSE IF iter > 0 /\ ~(gone \subseteq Ran(pend.te)) THEN "a sample was pruned that the step did not test"
    ELSE IF iter > 0 /\ Cardinality(gone) # NPrun(Cardinality(dev)) THEN "number of pruned samples"
    ELSE IF iter > 0 /\ ~Low(gone, pend.te, pend.lo) THEN "a sample was pruned that is not among the best predicted"
    ELSE IF ~(Fits(Len(ev.tr), par.s2[1], Cardinality(new)) /\ Fits(Len(ev.va), par.s2[2], Cardinality(new)))
         THEN "sizes of the parts of an iteration"
    ELSE IF "unused_data" \in DOMAIN ev.ts /\ (~NoDup(ev.ts["unused_data"]) \/ Ran(ev.ts["unused_data"]) # unused \cup gone)
         THEN "the unused data of an iteration are not the pruned samples"
    ELSE IF ev.inv # <<>> THEN ev.inv[1]
    ELSE ""
  [] ev.e = "end" ->
    LET n == Cardinality(dev) IN
    IF stage # "ready" THEN "the run ends within an iteration"
    ELSE IF iter > par.nmax THEN ""
    ELSE IF iter = 0 THEN "the run ends before it starts"
    ELSE IF Tie(n) \/ \E t \in 1..n : Fits(t, par.s3[3], n) /\ Stop(n, t) THEN ""
    ELSE "the run ends although a further step is admissible"

Apply(ev) ==
  CASE ev.e = "step" -> /\ stage' = "tested" /\ pend' = [te |-> ev.te, lo |-> ev.lo] /\ UNCHANGED <<dev, unused, iter>>
  [] ev.e = "iter" -> LET new == Ran(ev.tr) \cup Ran(ev.va) IN
       /\ stage' = "ready" /\ iter' = iter + 1 /\ unused' = unused \cup (dev \ new) /\ dev' = new
       /\ pend' = [te |-> <<>>, lo |-> <<>>]
  [] ev.e = "end" -> stage' = "ended" /\ UNCHANGED <<dev, unused, iter, pend>>

Start(p) == par = p /\ dev = 1..p.n /\ unused = {} /\ iter = 0 /\ stage = "ready"
            /\ pend = [te |-> <<>>, lo |-> <<>>] /\ why = ""

-------------------------------------------------------------------------------
(* exploration: every history of small data sets *)
SeqOf(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Ran(s) = S
Three(S) == {<<A, B>> \in (SUBSET S) \X (SUBSET S) : A \cap B = {}}
Small == [n : {5, 6}, sched : {"constant"}, np : {1, 2}, den : {4}, s3 : {<<2, 1, 1>>}, s2 : {<<3, 1>>}, nmin : {2, 4},
          rmin : {0, 3}, tmin : {0, 2}, rmax : {2, 4}, nmax : {0, 3}]
         \cup [n : {5}, sched : {"proportional"}, np : {1}, den : {4}, s3 : {<<1, 1, 2>>}, s2 : {<<3, 1>>}, nmin : {1},
               rmin : {0}, tmin : {0}, rmax : {2}, nmax : {3}]
Events ==
  IF stage = "tested" \/ iter = 0
  THEN {[e |-> "iter", tr |-> SeqOf(x[1]), va |-> SeqOf(x[2]), ts |-> [unused_data |-> SeqOf(Full \ (x[1] \cup x[2]))],
         inv |-> <<>>] : x \in Three(dev)}
  ELSE {[e |-> "end"]} \cup
       {[e |-> "step", tr |-> SeqOf(x[1]), va |-> SeqOf(x[2]), te |-> SeqOf(dev \ (x[1] \cup x[2])),
         lo |-> LET te == SeqOf(dev \ (x[1] \cup x[2])) IN [i \in 1..Len(te) |-> (te[i] * (iter + 2)) % 4]] : x \in Three(dev)}

-------------------------------------------------------------------------------
(* cases: parameters for runs of the code; a, b, c give the loss of sample x in  *)
(* step i as (a * x + b * i * x + c) % m                                          *)
Cases ==
  \E n \in {RandomElement(24..MaxN)}, sched \in {RandomElement({"constant", "proportional"})},
     s3 \in {RandomElement({<<4, 2, 2>>, <<4, 1, 3>>, <<2, 2, 4>>, <<5, 2, 1>>, <<2, 4, 2>>, <<3, 1, 4>>})},
     s2 \in {RandomElement({<<6, 2>>, <<4, 4>>, <<7, 1>>, <<5, 3>>})}, rmin \in {RandomElement(0..5)},
     tmin \in {RandomElement({0, 2, 4, 6, 9})}, rmax \in {RandomElement(2..8)}, nmax \in {RandomElement({0, 1, 2, 3, 5, 8})},
     m \in {RandomElement({3, 17, 1009})} :
     \E np \in {IF sched = "constant" THEN RandomElement(1..5) ELSE RandomElement(1..3)} :
     \E nmin \in {RandomElement(12..20)} :
     Start([n |-> n, sched |-> sched, np |-> np, den |-> 8, s3 |-> s3, s2 |-> s2, nmin |-> nmin, rmin |-> rmin,
            tmin |-> tmin, rmax |-> rmax, nmax |-> nmax, m |-> m, a |-> RandomElement(1..50), b |-> RandomElement(0..50)])

-------------------------------------------------------------------------------
Traces == IF Mode = "check" THEN JsonDeserialize("records.json") ELSE <<>>

Init == CASE Mode = "explore" -> (\E p \in Small : Start(p)) /\ k = 0 /\ at = 0
          [] Mode = "cases" -> (\E pool \in 1..256 : k = pool /\ Cases) /\ at = 0
          [] Mode = "check" -> \E i \in 1..Len(Traces) : k = i /\ at = 1 /\ Start(Traces[i].par)

Next ==
  \/ Mode = "explore" /\ \E ev \in Events : Why(ev) = "" /\ Apply(ev) /\ UNCHANGED <<par, k, at, why>>
  \/ /\ Mode = "check" /\ at <= Len(Traces[k].ev) /\ why = ""
     /\ LET ev == Traces[k].ev[at] IN
        \E w \in {TLCEval(Why(ev))} :
          /\ why' = w
          /\ IF w = "" THEN Apply(ev) ELSE UNCHANGED <<dev, unused, iter, pend, stage>>
     /\ at' = at + 1 /\ UNCHANGED <<par, k>>
Spec == Init /\ [][Next]_vars

Partition == dev \cap unused = {} /\ dev \cup unused = Full
Pruned == par.sched = "constant" => Cardinality(unused) = par.np * (IF iter = 0 THEN 0 ELSE iter - 1)
NeverBack == [][unused \subseteq unused' /\ dev' \subseteq dev]_vars
\* a step never prunes more than its share of the test part
Share == Cardinality(unused) > 0 => par.rmax > 0
Bounded == iter <= par.nmax + 1 /\ Cardinality(dev) >= 1
Emit == CASE Mode = "cases" -> PrintT("@@" \o ToJson([par |-> par, k |-> k]))
          [] Mode = "check" -> (why # "" \/ at > Len(Traces[k].ev)) => PrintT("@@" \o ToJson([k |-> k, at |-> at - 1, why |-> why,
                               stage |-> stage]))
          [] OTHER -> TRUE
===============================================================================
