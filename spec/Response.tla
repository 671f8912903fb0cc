-------------------------------- MODULE Response --------------------------------
(* Material response data sets (C27). A sample is a strain path with the response *)
(* of a material that starts undeformed: an abstract material with memory         *)
(* (m' = 2 m + d + shifted d, so order, increments and components matter) which   *)
(* fails on some increments, or a linear elastic one. All numbers are integers.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, MaxOps, MaxSets
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S

N(dim) == IF dim = 2 THEN 3 ELSE 6
Nrm(dim) == IF dim = 2 THEN 2 ELSE 3                       \* normal components come first
Fails == {20, -35, 15}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)

(* the abstract material along a path (sequence of rows of components) *)
Inc(p, t) == [c \in 1..Len(p[1]) |-> p[t][c] - p[t - 1][c]]
Fail(p) == \E t \in 2..Len(p) : Inc(p, t)[1] \in Fails
Step(m, d) == [c \in 1..Len(d) |-> 2 * m[c] + d[c] + d[(c % Len(d)) + 1]]
RECURSIVE MemSeq(_, _)                                     \* memory after 1..t
MemSeq(p, t) == IF t = 1 THEN <<[c \in 1..Len(p[1]) |-> 0]>>
                ELSE LET q == TLCEval(MemSeq(p, t - 1)) IN Append(q, TLCEval(Step(q[t - 1], TLCEval(Inc(p, t)))))
Rel(p, t) == [c \in 1..Len(p[1]) |-> p[t][c] - p[1][c]]
RECURSIVE AccSeq(_, _)
AccSeq(p, t) == IF t = 1 THEN <<0>>
                ELSE LET q == TLCEval(AccSeq(p, t - 1)) IN Append(q, q[t - 1] + SumTo([c \in 1..Len(p[1]) |-> Abs(p[t][c] - p[t - 1][c])], Len(p[1])))
Stress(p) == TLCEval(MemSeq(p, Len(p)))
Elastic(p, dim) == TLCEval([t \in 1..Len(p) |-> LET e == TLCEval(Rel(p, t))  tr == SumTo(e, Nrm(dim))
                                       IN TLCEval([c \in 1..Len(e) |-> 2 * e[c] + IF c <= Nrm(dim) THEN tr ELSE 0])])

Sample(p, s, time, order, noise, snoise) ==
  TLCEval([strain |-> p, stress |-> s, time |-> time, order |-> order, noise |-> noise, snoise |-> snoise,
   e |-> TLCEval([t \in 1..Len(p) |-> TLCEval(Rel(p, t))]), acc |-> AccSeq(p, Len(p))])

(* rows of a path from a few numbers; every second is a multiple of five *)
Row(a, b, i, t, n) == TLCEval([c \in 1..n |-> IF t = 1 /\ a % 4 > 0 THEN 0 ELSE 5 * (((a * t * t + b * t * c + i * c * c + 2 * t) % 9) - 4)])
PathOf(a, b, i, len, n) == TLCEval([t \in 1..len |-> Row(a, b, i, t, n)])
Ident(n) == [c \in 1..n |-> c]
OrderOf(o, n) == IF o = 0 THEN Ident(n) ELSE [c \in 1..n |-> ((c + o - 1) % n) + 1]
Times(len, k) == TLCEval([t \in 1..len |-> k * t * t])
Feats == {"acc_p_strain", "e_strain_mf", "unknown"}

VARIABLES sets, hist, n, done
vars == <<sets, hist, n, done>>
Log(op, out) == hist' = Append(hist, op @@ [made |-> out])
\* a data set: dimension, material it answers, declared state features, samples
Keep(ds) == IF Len(sets) < MaxSets THEN sets' = Append(sets, TLCEval(ds)) ELSE sets' = Append(Tail(sets), TLCEval(ds))
Turn == n' = n + 1 /\ done' = FALSE

\* the response of single paths (failing ones are told and not stored)
Compute == \E dim \in Choice({2, 3}), a \in Choice(0..8), b \in Choice(0..8), m \in Choice(1..3), len \in Choice(2..6), o \in Choice(0..5),
              f \in Choice(SUBSET Feats), noisyclass \in Choice({TRUE, FALSE}) :
  LET ps == TLCEval([i \in 1..m |-> PathOf(a, b, i, len, N(dim))])
      ord == OrderOf(o % N(dim), N(dim))
      ok == SelectSeq(ps, LAMBDA p : ~Fail(p))
      ds == [dim |-> dim, mat |-> "memory", feats |-> f, samples |-> [i \in 1..Len(ok) |-> Sample(ok[i], Stress(ok[i]), Times(len, a + 1), ord, <<>>, <<>>)]]
      op == [op |-> "compute", dim |-> dim, paths |-> ps, order |-> ord, time |-> Times(len, a + 1), feats |-> f, noisyclass |-> noisyclass,
             fails |-> [i \in 1..m |-> Fail(ps[i])]]
  IN /\ Turn /\ IF ok = <<>> THEN sets' = sets /\ Log(op, <<>>) ELSE Keep(ds) /\ Log(op, <<ds>>)

\* generated paths: the path generator is asked again (at most ten times per sample) when the material fails
Cand(a, b, k, len, nc, same) == PathOf(a, b, IF same = 0 THEN 1 ELSE k, len, nc)
RECURSIVE Taken(_, _, _)                                   \* indices of the paths kept; a 0 ends a failing request
Taken(fl, from, m) == IF m = 0 THEN <<>>
  ELSE IF \A k \in from..(from + 9) : fl[k] THEN <<0>>
  ELSE LET k == CHOOSE k \in from..(from + 9) : ~fl[k] /\ \A h \in from..(k - 1) : fl[h] IN <<k>> \o Taken(fl, k + 1, m - 1)
Generate == \E dim \in Choice({2, 3}), a \in Choice(0..8), b \in Choice(0..8), m \in Choice(1..4), len \in Choice(2..6), same \in Choice(0..3),
               f \in Choice(SUBSET Feats), mat \in Choice({"memory", "elastic"}), disk \in Choice({TRUE, FALSE}), kind \in Choice({"random", "proportional"}) :
  \E ps \in {TLCEval([k \in 1..(11 * m) |-> Cand(a, b, k, len, N(dim), same)])} :
  \E fl \in {TLCEval([k \in 1..(11 * m) |-> mat = "memory" /\ Fail(ps[k])])} :
  \E tk \in {TLCEval(Taken(fl, 1, m))} :
  \E ok \in {\A i \in 1..Len(tk) : tk[i] > 0} :
  \E ds \in {[dim |-> dim, mat |-> mat, feats |-> IF mat = "elastic" THEN f \ {"acc_p_strain"} ELSE f,
              samples |-> IF ok THEN TLCEval([i \in 1..m |-> Sample(ps[tk[i]], IF mat = "elastic" THEN Elastic(ps[tk[i]], dim) ELSE Stress(ps[tk[i]]),
                                                      Times(len, a + 1), Ident(N(dim)), <<>>, <<>>)]) ELSE <<>>]},
     op \in {[op |-> "generate", dim |-> dim, mat |-> mat, m |-> m, paths |-> ps, time |-> Times(len, a + 1), feats |-> f,
             kind |-> kind, disk |-> disk /\ mat = "elastic", ok |-> ok, asked |-> IF ok THEN tk[m] ELSE 0]} :
     /\ Turn /\ IF ok THEN Keep(ds) /\ Log(op, <<ds>>) ELSE sets' = sets /\ Log(op, <<>>)

\* the response of another (elastic) material to the strains of a data set
FromStrain == \E i \in Choice(1..Len(sets)), f \in Choice(SUBSET Feats) :
  LET s == sets[i]
      ds == [dim |-> s.dim, mat |-> "elastic", feats |-> f \ {"acc_p_strain"},
             samples |-> [j \in 1..Len(s.samples) |-> LET q == s.samples[j] IN Sample(q.strain, Elastic(q.strain, s.dim), q.time, q.order, <<>>, <<>>)]]
  IN /\ Turn /\ Keep(ds) /\ Log([op |-> "fromstrain", src |-> i, feats |-> f], <<ds>>)

\* noise: trial k of sample i adds noise to the strain (in the scaled space: g units of strain each),
\* none at the start; the strain may be averaged over five instants; a failing trial is repeated with new noise
Clamp(t, len) == IF t < 1 THEN 1 ELSE IF t > len THEN len ELSE t
Average(p) == TLCEval([t \in 1..Len(p) |-> TLCEval([c \in 1..Len(p[1]) |-> SumTo([w \in 1..5 |-> p[Clamp(t + w - 3, Len(p))][c]], 5) \div 5])])
NoiseOf(a, b, i, k, len, nc, unit) == TLCEval([t \in 1..len |-> TLCEval([c \in 1..nc |-> IF t = 1 THEN 0 ELSE unit * (((a * t + b * c + 3 * k * k + k * t * c + i) % 5) - 2)])])
NoisyStrain(p, z, g, dn) ==
  LET q == TLCEval([t \in 1..Len(p) |-> TLCEval([c \in 1..Len(p[1]) |-> p[t][c] + (IF g = 0 THEN 1 ELSE g) * z[t][c]])])
  IN IF dn THEN [Average(q) EXCEPT ![1] = p[1]] ELSE q
\* (set bindings instead of LET: TLC evaluates them once)
Five(s) == \A j \in 1..Len(s.samples) : \A t \in 1..Len(s.samples[j].strain), c \in 1..N(s.dim) : s.samples[j].strain[t][c] % 5 = 0
NormSq(s, j) == TLCEval([t \in 1..Len(s.samples[j].strain) |-> SumTo([c \in 1..N(s.dim) |-> (IF c <= Nrm(s.dim) THEN 1 ELSE 2) * s.samples[j].strain[t][c] * s.samples[j].strain[t][c]], N(s.dim))])
First(p, noise, g, avg) == IF \A k \in 1..10 : Fail(NoisyStrain(p, noise[k], g, avg)) THEN 0
                           ELSE CHOOSE k \in 1..10 : ~Fail(NoisyStrain(p, noise[k], g, avg)) /\ \A h \in 1..(k - 1) : Fail(NoisyStrain(p, noise[h], g, avg))
MinusRows(p, q) == TLCEval([t \in 1..Len(p) |-> TLCEval([c \in 1..Len(p[1]) |-> p[t][c] - q[t][c]])])
NoisySample(x, q, st, z) == Sample(q, st, x.time, x.order, z, MinusRows(st, x.stress))
Noisy == \E i \in Choice(1..Len(sets)), a \in Choice(0..4), b \in Choice(0..4), g \in Choice({0, 10}), dn \in Choice({TRUE, FALSE}), same \in Choice(0..3),
            het \in Choice({"no", "own", "given"}), f \in Choice(SUBSET Feats), lo \in Choice({-40, -10, 0}) :
  \E s \in {sets[i]} : \E avg \in {dn /\ Five(s)}, m \in {Len(s.samples)} :
  \E noise \in {TLCEval([j \in 1..m |-> TLCEval([k \in 1..11 |->
                   NoiseOf(a, b, j, IF same = 0 THEN 0 ELSE k, Len(s.samples[j].strain), N(s.dim), IF g > 0 THEN 1 ELSE 5)])])},
     normsq \in {TLCEval([j \in 1..m |-> NormSq(s, j)])} :
  \E first \in {TLCEval([j \in 1..m |-> First(s.samples[j].strain, noise[j], g, avg)])} :
  \E res \in {TLCEval([j \in 1..m |-> TLCEval(NoisyStrain(s.samples[j].strain, noise[j][IF first[j] = 0 THEN 1 ELSE first[j]], g, avg))])} :
  \E st \in {TLCEval([j \in 1..m |-> Stress(res[j])])}, ok \in {\A j \in 1..m : first[j] > 0} :
  \E ds \in {[dim |-> s.dim, mat |-> "memory", feats |-> f,
               samples |-> IF ok THEN TLCEval([j \in 1..m |-> NoisySample(s.samples[j], res[j], st[j], noise[j][first[j]])]) ELSE <<>>]},
     op \in {[op |-> "noisy", src |-> i, g |-> g, lo |-> lo, dn |-> avg, het |-> het, feats |-> f, ok |-> ok,
              noise |-> noise, normsq |-> normsq, trials |-> first]} :
     /\ het = "own" => \A j \in 1..m : \E t \in 1..Len(normsq[j]) : normsq[j][t] > 0
     /\ Turn /\ IF ok THEN Keep(ds) /\ Log(op, <<ds>>) ELSE sets' = sets /\ Log(op, <<>>)

\* response files, one per path, read in the order of the number that ends their name; paths without stress are left out
Files(a, b, m, len) == [i \in 1..m |-> [num |-> ((a * i + b) % 23) + 24 * (i % 2) + (IF i % 2 = 0 THEN 0 ELSE 100 * (i - 1)) + 50 * i, style |-> (a + i) % 3,
   time |-> Times(len + (i % 2), 1), strain |-> PathOf(a, b, i, len + (i % 2), 6),
   stress |-> TLCEval([t \in 1..(len + (i % 2)) |-> TLCEval([c \in 1..6 |-> IF (a + i) % 4 = 0 /\ i > 1 THEN 0 ELSE 1 + ((a * c + b * t + i) % 7)])])]]
Cut(rows, dim) == TLCEval([t \in 1..Len(rows) |-> IF dim = 3 THEN rows[t] ELSE <<rows[t][1], rows[t][2], rows[t][4]>>])
Zero(rows) == \A t \in 1..Len(rows) : \A c \in 1..Len(rows[t]) : rows[t][c] = 0
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y.num <= z.num IN <<x>> \o Sorted(S \ {x})
Read == \E how \in Choice({"csv", "out"}), dim \in Choice({2, 3}), a \in Choice(0..8), b \in Choice(0..8), m \in Choice(1..4), len \in Choice(2..5), disk \in Choice({TRUE, FALSE}), bad \in Choice(0..11) :
  LET fs == TLCEval(Files(a, b, m, len))
      d == IF how = "out" THEN 3 ELSE dim
      kept == TLCEval(IF how = "out" THEN fs ELSE SelectSeq(Sorted({fs[i] : i \in 1..m}), LAMBDA x : ~Zero(Cut(x.stress, d))))
      ok == bad > 0 \/ how = "out"
      ds == [dim |-> d, mat |-> "read", feats |-> {}, samples |-> [i \in 1..Len(kept) |->
               Sample(Cut(kept[i].strain, d), Cut(kept[i].stress, d), kept[i].time, Ident(N(d)), <<>>, <<>>)]]
      op == [op |-> how, dim |-> d, files |-> fs, disk |-> disk /\ how = "csv", ok |-> ok]
  IN /\ Cardinality({fs[i].num : i \in 1..m}) = m
     /\ Turn /\ IF ok THEN Keep(ds) /\ Log(op, <<ds>>) ELSE sets' = sets /\ Log(op, <<>>)

Finish == n = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<sets, hist, n>>
Init == sets = <<>> /\ hist = <<>> /\ n = 0 /\ done = FALSE
NoisyToo == Noisy
Next == \/ n < MaxOps /\ (Compute \/ Generate \/ Read \/ (sets # <<>> /\ (FromStrain \/ Noisy \/ NoisyToo)))
        \/ Finish
Spec == Init /\ [][Next]_vars

\* every sample starts from the undeformed material; paths and responses have equal lengths; no noise, no difference
Started == \A i \in 1..Len(sets) : sets[i].mat # "read" => \A j \in 1..Len(sets[i].samples) :
  LET q == sets[i].samples[j] IN /\ \A c \in 1..N(sets[i].dim) : q.stress[1][c] = 0
                                 /\ Len(q.strain) = Len(q.stress) /\ Len(q.time) = Len(q.strain)
Answers == \A i \in 1..Len(sets) : \A j \in 1..Len(sets[i].samples) : LET q == sets[i].samples[j] IN
  /\ sets[i].mat = "memory" => q.stress = Stress(q.strain) /\ ~Fail(q.strain)
  /\ sets[i].mat = "elastic" => q.stress = Elastic(q.strain, sets[i].dim)
Emit == done => PrintT("@@" \o ToJson([ops |-> hist]))
=================================================================================
