-------------------------------- MODULE Split ---------------------------------
(* Splitting, folding and batching of n samples (C05).                         *)
(* mode "cases": enumerate split requests and their specified outcome;         *)
(* mode "check": judge recorded executions of the code (records.json).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Ns, Eighths, MaxSubsets, BatchSizes, Mode

VARIABLES c, phase
vars == <<c, phase>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))

\* prescribed sizes: floor of the fraction, the remainder one by one from the first subset on
Floor(n, f) == [i \in 1..Len(f) |-> (n * f[i]) \div 8]
Sizes(n, f) == LET b == Floor(n, f)
                   rest == n - Sum(b)
               IN [i \in 1..Len(f) |-> b[i] + (IF i <= rest THEN 1 ELSE 0)]
Valid(f) == (\A i \in 1..Len(f) : f[i] \in 0..8) /\ Sum(f) = 8
Outcome(n, f) == IF ~Valid(f) THEN [ok |-> FALSE, sizes |-> <<>>]
                 ELSE LET s == Sizes(n, f)
                      IN IF \E i \in 1..Len(s) : s[i] < 1 THEN [ok |-> FALSE, sizes |-> s]
                         ELSE [ok |-> TRUE, sizes |-> s]
\* batches of a pass in data set order
NBatch(n, b) == (n + b - 1) \div b
Batches(n, b) == [k \in 1..NBatch(n, b) |->
                   [j \in 1..(IF k * b <= n THEN b ELSE n - (k - 1) * b) |-> (k - 1) * b + j - 1]]

Cases == {[kind |-> "split", n |-> n, f |-> f] : n \in Ns,
           f \in UNION {[1..k -> Eighths \cup {-1}] : k \in 1..MaxSubsets}}
         \cup {[kind |-> "batch", n |-> n, b |-> b] : n \in Ns, b \in BatchSizes}

-------------------------------------------------------------------------------
(* Judging recorded executions *)
Records == IF Mode = "check" THEN JsonDeserialize("records.json") ELSE <<>>
Flat(ss) == LET RECURSIVE F(_) F(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o F(i + 1) IN F(1)
Range(s) == {s[i] : i \in 1..Len(s)}
Perm(s, n) == Len(s) = n /\ Range(s) = 0..(n - 1)
\* every sample in exactly one subset
Partition(n, parts) == Perm(Flat(parts), n)
\* every sample tested exactly once, never trained on and tested in the same fold, and every
\* other sample trained on; fold sizes differ by at most one
Folds(n, r) ==
  /\ Partition(n, [k \in 1..Len(r) |-> r[k].test])
  /\ \A k \in 1..Len(r) : /\ Range(r[k].train) = (0..(n - 1)) \ Range(r[k].test)
                          /\ Len(r[k].test) \in {n \div Len(r), (n + Len(r) - 1) \div Len(r)}
Good(r) == CASE r.kind = "split" -> Partition(r.n, r.parts)
             [] r.kind = "folds" -> Folds(r.n, r.folds)
             [] r.kind = "pass" -> Perm(r.order, r.n)
             [] r.kind = "same" -> r.a = r.b

-------------------------------------------------------------------------------
Init == /\ phase = "start"
        /\ c \in IF Mode = "cases" THEN Cases ELSE {[i |-> i] : i \in 1..Len(Records)}
Next == phase = "start" /\ phase' = "done" /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

SizesAddUp == Mode = "cases" /\ c.kind = "split" /\ Valid(c.f) =>
                /\ Sum(Sizes(c.n, c.f)) = c.n
                /\ \A i \in 1..Len(c.f) : LET d == 8 * Sizes(c.n, c.f)[i] - c.n * c.f[i]
                                          IN d > -8 /\ d <= 8
BatchesCover == Mode = "cases" /\ c.kind = "batch" => Partition(c.n, Batches(c.n, c.b))
Emit == phase = "done" =>
          PrintT("@@" \o ToJson(
            IF Mode = "check" THEN [i |-> c.i, good |-> Good(Records[c.i])]
            ELSE IF c.kind = "split" THEN c @@ [out |-> Outcome(c.n, c.f)]
            ELSE c @@ [batches |-> Batches(c.n, c.b)]))
===============================================================================
