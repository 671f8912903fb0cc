-------------------------------- MODULE Measure -------------------------------
(* Noise on measured displacements (C30). A specimen measurement is a directory *)
(* of T time steps; noisy and denoised copies of it are derived, from it or from *)
(* one another. Denoising is linear along time: every copy carries the exact     *)
(* matrix (integers over a common denominator) that maps the displacement        *)
(* history of every node and component of its source to its own; the first step  *)
(* of a denoised history is the undeformed specimen.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, Times, Windows, Cycles, MaxOps

VARIABLES T, ops, done
vars == <<T, ops, done>>

Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S
Clamp(x) == IF x < 1 THEN 1 ELSE IF x > T THEN T ELSE x
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)

\* stencils with replicated ends: weight of offset j (1..w) for the window that starts w \div 2 before
Stencil(wt, w) == TLCEval([t \in 1..T |-> TLCEval([s \in 1..T |->
                     Sum([j \in 1..w |-> IF Clamp(t - w \div 2 + j - 1) = s THEN wt[j] ELSE 0], w)])])
Mul(A, B) == TLCEval([t \in 1..T |-> TLCEval([s \in 1..T |-> Sum([j \in 1..T |-> A[t][j] * B[j][s]], T)])])
Id == [t \in 1..T |-> [s \in 1..T |-> IF t = s THEN 1 ELSE 0]]
RECURSIVE Pow(_, _), PowI(_, _)
Pow(A, n) == IF n = 0 THEN TLCEval(Id) ELSE Mul(A, Pow(A, n - 1))
PowI(x, n) == IF n = 0 THEN 1 ELSE x * PowI(x, n - 1)

SG(w, p) == CASE p >= w - 1 -> [wt |-> [j \in 1..w |-> IF j = w \div 2 + 1 THEN 1 ELSE 0], den |-> 1]
              [] p \in {0, 1} -> [wt |-> [j \in 1..w |-> 1], den |-> w]
              [] w = 5 -> [wt |-> <<-3, 12, 17, 12, -3>>, den |-> 35]
              [] w = 7 /\ p \in {4, 5} -> [wt |-> <<5, -30, 75, 131, 75, -30, 5>>, den |-> 231]
              [] w = 7 -> [wt |-> <<-2, 3, 6, 7, 6, 3, -2>>, den |-> 21]

Filters ==
  {[m |-> "moving_average", w |-> w, p |-> 0, c |-> c] : w \in Windows, c \in Cycles}
  \cup {[m |-> "savitzky_golay", w |-> w, p |-> p, c |-> c] : w \in {x \in {3, 5, 7} : x \in Windows}, p \in 0..5, c \in Cycles}
  \cup {[m |-> "frequency_low_pass", w |-> 0, p |-> p, c |-> c] : p \in {0, 1, 2}, c \in Cycles}

\* p = 0: nothing but the mean passes; 1: everything but the fastest alternation; 2: everything
LowPass(p) == CASE p = 0 -> [A |-> [t \in 1..T |-> [s \in 1..T |-> 1]], den |-> T]
                [] p = 1 /\ T % 2 = 0 -> [A |-> [t \in 1..T |-> [s \in 1..T |->
                              (IF t = s THEN T ELSE 0) - (IF (t + s) % 2 = 0 THEN 1 ELSE -1)]], den |-> T]
                [] OTHER -> [A |-> Id, den |-> 1]

Filter(f) == CASE f.m = "moving_average" -> [A |-> Stencil([j \in 1..f.w |-> 1], f.w), den |-> f.w]
               [] f.m = "savitzky_golay" -> [A |-> Stencil(SG(f.w, f.p).wt, f.w), den |-> SG(f.w, f.p).den]
               [] OTHER -> LowPass(f.p)
\* the low pass filter is a projection: repeating it changes nothing
Repeat(f, x) == IF f.m = "frequency_low_pass" THEN [A |-> IF f.c = 0 THEN Id ELSE x.A, den |-> IF f.c = 0 THEN 1 ELSE x.den]
                ELSE [A |-> Pow(x.A, f.c), den |-> PowI(x.den, f.c)]

Fine(f) == /\ f.m = "savitzky_golay" => f.p < f.w /\ (f.p = 3 => f.w # 3) /\ (f.c > 1 => f.p # 2 \/ f.w # 5)
                                         /\ (f.w = 7 /\ f.p \in {4, 5} => f.c <= 1)
           /\ f.w <= 2 * T

Init == /\ \E pool \in (IF Sim THEN 1..64 ELSE {1}) : T \in Choice(Times)
        /\ ops = <<>> /\ done = FALSE

Denoise == \E f \in Choice({x \in Filters : Fine(x)}), src \in Choice(0..Len(ops)) :
             \E one \in {TLCEval(Filter(f))} :
             \E x \in {TLCEval(Repeat(f, one))} :
               ops' = Append(ops, [op |-> "denoise", src |-> src, f |-> f, A |-> x.A, den |-> x.den])
Inject == \E d \in Choice({"uniform", "gaussian", "spiked_gaussian"}), src \in Choice(0..Len(ops)) :
             ops' = Append(ops, [op |-> "inject", src |-> src, f |-> [m |-> d], A |-> <<>>, den |-> 1])

Next == \/ /\ ~done /\ Len(ops) < MaxOps /\ (Denoise \/ Inject) /\ UNCHANGED <<T, done>>
        \/ /\ ~done /\ Len(ops) >= MaxOps /\ done' = TRUE /\ UNCHANGED <<T, ops>>
Spec == Init /\ [][Next]_vars

Denoised == {i \in 1..Len(ops) : ops[i].op = "denoise"}
\* a history that does not move is not changed
Constants == \A i \in Denoised : \A t \in 1..T : Sum(ops[i].A[t], T) = ops[i].den
\* odd windows do not shift: a linear history is reproduced away from its ends
NoShift == \A i \in Denoised : LET o == ops[i] IN
             (o.f.m # "frequency_low_pass" /\ o.f.w % 2 = 1) =>
               \A t \in 1..T : (t > o.f.c * (o.f.w \div 2) /\ t <= T - o.f.c * (o.f.w \div 2)) =>
                 Sum([s \in 1..T |-> s * o.A[t][s]], T) = t * o.den
\* averages never leave the range of the history
Positive == \A i \in Denoised : ops[i].f.m = "moving_average" => \A t \in 1..T, s \in 1..T : ops[i].A[t][s] >= 0
Emit == done => PrintT("@@" \o ToJson([T |-> T, ops |-> ops]))
===============================================================================
