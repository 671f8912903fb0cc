------------------------------- MODULE Metrics --------------------------------
(* Prediction metrics, their report file and the losses (C26). A folder holds  *)
(* result files of samples; values are integers, metrics are exact rationals   *)
(* (num/den) or square roots of rationals taken by the replay.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Sim
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S
Ids == IF Sim THEN {0, 1, 2, 3, 10, 21} ELSE {0, 1}
NF == 3                                    \* features of a sample
Labels == {"n10", "n2", "n400"}

VARIABLES files, report, hist, n, done
vars == <<files, report, hist, n, done>>

Abs(x) == IF x < 0 THEN -x ELSE x
\* a path of T steps; feature f of a "flat" sample has no target at all (zero ground truth)
Val(p, q, r, t, f) == ((p * t * t + q * f + r * t * f + p * q) % 19) - 9
Sample(T, p, q, r, z) == [T |-> T,
   out |-> [t \in 1..T |-> [f \in 1..NF |-> Val(p, q, r, t, f)]],
   tgt |-> [t \in 1..T |-> [f \in 1..NF |-> IF f = z THEN 0 ELSE Val(q, r, p, t, f)]],
   gt |-> TRUE]
RECURSIVE SumF(_, _)
SumF(F, T) == IF T = 0 THEN 0 ELSE F[T] + SumF(F, T - 1)
SE(s, f) == SumF([t \in 1..s.T |-> (s.out[t][f] - s.tgt[t][f]) * (s.out[t][f] - s.tgt[t][f])], s.T)
AV(s, f) == SumF([t \in 1..s.T |-> Abs(s.out[t][f])], s.T)
AG(s, f) == SumF([t \in 1..s.T |-> Abs(s.tgt[t][f])], s.T)
\* per feature: squared error, absolute value and absolute ground truth, each over T steps
Facts(s) == [T |-> s.T, se |-> [f \in 1..NF |-> SE(s, f)], av |-> [f \in 1..NF |-> AV(s, f)], ag |-> [f \in 1..NF |-> AG(s, f)]]

Init == \E pool \in (IF Sim THEN 1..256 ELSE {1}) : files = <<>> /\ report = <<>> /\ hist = <<>> /\ n = 0 /\ done = FALSE
Log(r) == hist' = Append(hist, r) /\ n' = n + 1 /\ done' = FALSE
Have == DOMAIN files
Rng == IF Sim THEN 1..18 ELSE {1, 4}
Full == \A i \in Have : files[i].gt
Put == \E i \in Choice(Ids), T \in Choice(IF Sim THEN {1, 2, 5} ELSE {2}), p \in Choice(Rng), q \in Choice(Rng), r \in Choice(IF Sim THEN 0..9 ELSE {3}),
          z \in Choice(IF Sim THEN {0, 0, 1, 3} \cup {4, 5, 6, 7} ELSE {0, 2}), g \in Choice(IF Sim THEN 1..8 ELSE {1}) :
  LET s == [Sample(T, p, q, r, z) EXCEPT !.gt = (g # 8)] IN
  /\ files' = [j \in Have \cup {i} |-> IF j = i THEN s ELSE files[j]]
  /\ Log([op |-> "put", id |-> i, sample |-> s])
  /\ UNCHANGED report
Delete == /\ Have # {}
          /\ \E i \in Choice(Have) : files' = [j \in Have \ {i} |-> files[j]] /\ Log([op |-> "delete", id |-> i])
          /\ UNCHANGED report
\* files which are no results of a sample are left out
Junk == \E k \in Choice({"bak", "summary", "named", "folder"}) : Log([op |-> "junk", kind |-> k]) /\ UNCHANGED <<files, report>>
One == /\ Have # {}
       /\ \E i \in Choice(Have), S \in Choice(SUBSET {"mse", "rmse", "mav", "mav_gt"}) :
            Log([op |-> "one", id |-> i, which |-> S, ok |-> files[i].gt \/ S = {}, facts |-> Facts(files[i])])
       /\ UNCHANGED <<files, report>>
\* mean over the samples of the folder, saved and read back
Mean == /\ Have # {}
        /\ \E S \in Choice({{"rmse"}, {"nrmse"}, {"rmse", "nrmse"}}), save \in Choice(BOOLEAN) :
             Log([op |-> "mean", which |-> S, save |-> save, ok |-> Full, facts |-> [i \in Have |-> Facts(files[i])], n |-> Cardinality(Have)])
        /\ UNCHANGED <<files, report>>
\* several processes report into one file, which is appended to or started anew
Write == /\ Have # {} /\ Full
         /\ \E l \in Choice(Labels), o \in Choice(BOOLEAN) :
              LET b == [label |-> l, n |-> Cardinality(Have), facts |-> [i \in Have |-> Facts(files[i])]] IN
              /\ report' = IF o THEN <<b>> ELSE Append(report, b)
              /\ Log([op |-> "write", label |-> l, over |-> o, n |-> Cardinality(Have)])
         /\ UNCHANGED files
First(k) == {j \in 1..Len(report) : (k = 0 \/ report[j].n = k) /\ \A m \in 1..(j - 1) : ~(k = 0 \/ report[m].n = k)}
Read == /\ report # <<>>
        /\ \E k \in Choice({0, 1, 2, 3}) :
             Log([op |-> "read", k |-> k, ok |-> First(k) # {}, facts |-> IF First(k) = {} THEN [none |-> TRUE] ELSE report[CHOOSE j \in First(k) : TRUE].facts])
        /\ UNCHANGED <<files, report>>
\* ground truth and predictions of all or of chosen samples, one array per component
Arrays == /\ Have # {}
          /\ \E a \in Choice({"all", "some", "missing"}), c \in Choice(1..2), i \in Choice(Ids), j \in Choice(Ids), kind \in Choice({"stress_comps", "p_strain_comps", "acc_p_strain"}) :
               LET ids == IF a = "all" THEN <<>> ELSE IF a = "missing" THEN <<i, 77>> ELSE IF i = j THEN <<i>> ELSE <<i, j>>
                   use == IF a = "all" THEN Have ELSE {ids[k] : k \in 1..Len(ids)}
                   Comp(k) == IF kind = "acc_p_strain" THEN 3 ELSE k
                   nc == IF kind = "acc_p_strain" THEN 1 ELSE c
               IN Log([op |-> "arrays", all |-> a = "all", ids |-> ids, kind |-> kind, nc |-> nc,
                       ok |-> use \subseteq Have /\ \A k \in use \cap Have : files[k].gt,
                       rows |-> [k \in use \cap Have |-> [m \in 1..nc |-> [t \in 1..files[k].T |-> <<files[k].tgt[t][Comp(m)], files[k].out[t][Comp(m)]>>]]]])
          /\ UNCHANGED <<files, report>>
\* losses: mean squared error and mean relative error with three treatments of small targets (threshold s)
Den(how, t, s) == CASE how = "absolute" -> (IF Abs(t) < s THEN 0 ELSE Abs(t))
                    [] how = "clip" -> (IF Abs(t) < s THEN s ELSE Abs(t))
                    [] how = "regularizer" -> Abs(t) + s
Loss == \E p \in Choice(Rng), q \in Choice(Rng), r \in Choice(IF Sim THEN 0..9 ELSE {3}), m \in Choice(IF Sim THEN 1..6 ELSE {4}), s \in Choice({1, 2, 4}),
           how \in Choice({"mse", "absolute", "clip", "regularizer", "unknown", "badzero"}) :
  LET o == [k \in 1..m |-> Val(p, q, r, k, 1)]
      g == [k \in 1..m |-> IF (k + p) % 3 = 0 THEN 0 ELSE Val(q, r, p, k, 2)]
  IN /\ Log([op |-> "loss", how |-> how, s |-> s, out |-> o, tgt |-> g,
             \* absolute differences and denominators (0: the difference itself)
             num |-> [k \in 1..m |-> Abs(o[k] - g[k])],
             den |-> [k \in 1..m |-> IF how \in {"absolute", "clip", "regularizer"} THEN Den(how, g[k], s) ELSE 1]])
     /\ UNCHANGED <<files, report>>
Bad == /\ Have # {}
       /\ \E k \in Choice({"metric", "mean", "type", "nofolder"}), i \in Choice(Have) : Log([op |-> "bad", kind |-> k, id |-> i])
       /\ UNCHANGED <<files, report>>

Finish == n >= MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<files, report, hist, n>>
Next == (n < MaxOps /\ (Put \/ Delete \/ Junk \/ One \/ Mean \/ Write \/ Read \/ Arrays \/ Loss \/ Bad)) \/ Finish
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
\* a prediction without error has no squared error; squared errors dominate no less than the squared mean error
Sound == \A i \in Have, f \in 1..NF :
           /\ SE(files[i], f) >= 0
           /\ (SE(files[i], f) = 0) = (\A t \in 1..files[i].T : files[i].out[t][f] = files[i].tgt[t][f])
           /\ files[i].T * SE(files[i], f) >= (AV(files[i], f) - AG(files[i], f)) * (AV(files[i], f) - AG(files[i], f))
Emit == done => PrintT("@@" \o ToJson(hist))
===============================================================================
