------------------------------- MODULE ParamConv -------------------------------
(* Parameter-convergence stopping criterion (C03): histories of two parameters *)
(* and the decision after every entry.                                         *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Values, MaxLen, Trigs, Tols, MinLens, Sim
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S

VARIABLES cfg, hist, dec, done
vars == <<cfg, hist, dec, done>>

Abs(x) == IF x < 0 THEN -x ELSE x
\* change from a to b below tol (in 1/1000), relative to a unless a is zero
Small(a, b, tol) == 1000 * Abs(b - a) < tol * (IF a = 0 THEN 1 ELSE Abs(a))
Conv(h, c, k) == /\ Len(h) > c.trig
                 /\ \A i \in (Len(h) - c.trig + 1)..Len(h) : Small(h[i - 1][k], h[i][k], c.tol)
Decision(h, c) == /\ Conv(h, c, 1) /\ Conv(h, c, 2) /\ Len(h) > c.minlen

Init == /\ cfg \in ([trig : Trigs, tol : Tols, minlen : MinLens])
        /\ hist = <<>> /\ dec = <<>> /\ done = FALSE
Add == /\ Len(hist) < MaxLen
       /\ \E a \in Choice(Values), b \in Choice({-x : x \in Values} \cup {1}) :
            /\ hist' = Append(hist, <<a, b>>)
            /\ dec' = Append(dec, [conv |-> Decision(hist', cfg), c1 |-> Conv(hist', cfg, 1),
                                   c2 |-> Conv(hist', cfg, 2)])
       /\ UNCHANGED <<cfg, done>>
Finish == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, hist, dec>>
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars

NotTooEarly == \A i \in 1..Len(dec) : dec[i].conv => i > cfg.trig /\ i > cfg.minlen
Constant == \A i \in 1..Len(dec) :
              (i > cfg.trig /\ i > cfg.minlen /\ \A j \in 1..i : hist[j] = hist[1]) => dec[i].conv
Emit == done => PrintT("@@" \o ToJson([cfg |-> cfg, hist |-> hist, dec |-> dec]))
===============================================================================
