------------------------------ MODULE StrainPath ------------------------------
(* Strain paths and noise (C17). mode "ask": histories of requests to one       *)
(* generator; mode "check": judge the recorded answers (records.json).          *)
(* Strain bounds are integers (units of 1e-3); recorded strains are integers    *)
(* of 1e-6 (rounded), ids are exact: equal ids iff bitwise equal rows/paths.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Gens, MaxOps, Sim, Mode
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S

Order(form, dim) ==
  CASE form = "infinitesimal" /\ dim = 2 -> <<"11", "22", "12">>
    [] form = "infinitesimal" /\ dim = 3 -> <<"11", "22", "33", "12", "23", "13">>
    [] form = "finite" /\ dim = 2 -> <<"11", "21", "12", "22">>
    [] form = "finite" /\ dim = 3 -> <<"11", "21", "31", "12", "22", "32", "13", "23", "33">>
\* weight of a component in the squared norm of the tensor
Weight(form, comp) == IF form = "infinitesimal" /\ comp \in {"12", "23", "13"} THEN 2 ELSE 1

\* c loading/reverse-loading cycles of F points each way fill the path; the rest rests at the start
Forward(r) == IF r.c = 0 THEN r.n ELSE (r.n - 1) \div (2 * r.c) + 1
Fold(r, k) ==                              \* point of the loading branch visited at time k (from 0)
  IF r.c = 0 THEN k
  ELSE LET f == Forward(r) - 1  m == k % (2 * f)
       IN IF k > 2 * f * r.c THEN 0 ELSE IF m <= f THEN m ELSE 2 * f - m
Refused(r) == r.bad # "" \/ (r.c > 0 /\ r.n < 2 * r.c + 1) \/ (r.form = "finite" /\ r.norm > 0)

-------------------------------------------------------------------------------
VARIABLES hist, n, done
vars == <<hist, n, done>>

Bounds(g, k, m) == LET i == (k * k * m + 3 * k) % 7 IN
  CASE i = 0 -> <<-40, 40>> [] i = 1 -> <<-40, 2>> [] i = 2 -> <<-3, 40>> [] i = 3 -> <<-10, 10>>
    [] i = 4 -> <<0, 0>> [] i = 5 -> IF g = "prop" THEN <<0, 10>> ELSE <<-10, 40>>
    [] i = 6 -> IF g = "prop" THEN <<-40, 0>> ELSE <<-10, 10>>
Same(form, dim) == [i \in 1..Len(Order(form, dim)) |-> <<-10, 10>>]
Path ==
  \E g \in Choice(Gens), fo \in Choice(0..3), dim \in Choice({2, 3}),
     pts \in Choice(3..24), cy \in Choice(0..6), no \in Choice(0..6),
     seed \in Choice(0..2), m \in Choice(0..6), nc \in Choice(2..4), span \in Choice({<<0, 1>>, <<2, 5>>}),
     ba \in Choice(0..39) :
     LET form == IF fo = 0 THEN "finite" ELSE "infinitesimal"
         c == IF cy > 3 THEN 0 ELSE cy
         norm == CASE no = 1 -> 300 [] no = 2 -> 1500 [] no = 3 -> 6000 [] OTHER -> 0
         bad == CASE ba = 1 -> "order" [] ba = 2 -> "missing" [] ba = 3 -> "norm" [] ba = 4 -> "noise" [] OTHER -> ""
         r == [op |-> "path", gen |-> g, form |-> form, dim |-> dim, n |-> pts, c |-> c,
               norm |-> IF form = "finite" /\ pts % 3 > 0 THEN 0 ELSE norm, seed |-> seed, nc |-> nc, span |-> span,
               bad |-> bad,
               bounds |-> IF m = 0 THEN Same(form, dim)
                          ELSE [i \in 1..Len(Order(form, dim)) |-> Bounds(g, i, m)]]
     IN /\ r.norm > 0 => \E i \in 1..Len(r.bounds) : r.bounds[i] # <<0, 0>>
        /\ hist' = Append(hist, r) /\ n' = n + 1 /\ done' = FALSE
\* an earlier request again, with another seed or the same
Repeat == \E i \in Choice(1..Len(hist)), seed \in Choice(0..2) :
  /\ hist[i].op = "path"
  /\ hist' = Append(hist, [hist[i] EXCEPT !.seed = IF n % 2 = 0 THEN @ ELSE seed]) /\ n' = n + 1 /\ done' = FALSE
Noisy == \E g \in Choice(Gens \ {"gp"}), dim \in Choice({2, 3}), c \in Choice({0, 1, 2}), std \in Choice({0, 20, 100}), seed \in Choice(0..2) :
  /\ hist' = Append(hist, [op |-> "noisy", gen |-> g, form |-> "infinitesimal", dim |-> dim, n |-> 800, c |-> c,
       norm |-> 0, seed |-> seed, nc |-> 3, span |-> <<0, 1>>, bad |-> "", std |-> std, bounds |-> Same("infinitesimal", dim)])
  /\ n' = n + 1 /\ done' = FALSE
Noise == \E d \in Choice({"uniform", "gaussian", "spiked_gaussian"}), a \in Choice({0, 100, 300}), v \in Choice({"homoscedastic", "heteroscedastic"}),
            w \in Choice({<<0, 1, 3>>, <<2, 0, 1>>, <<>>}), p \in Choice({0, 4, 8}) :
  /\ hist' = Append(hist, [op |-> "noise", dist |-> d, amp |-> a, var |-> v, w |-> w, spike |-> 50000, p |-> p])
  /\ n' = n + 1 /\ done' = FALSE
Finish == n = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, n>>
PathToo == Path
Ask == (n < MaxOps /\ (Path \/ PathToo \/ (n > 0 /\ Repeat) \/ Noisy \/ Noise)) \/ Finish
AskInit == hist = <<>> /\ n = 0 /\ done = FALSE

-------------------------------------------------------------------------------
(* Judging *)
Records == IF Mode = "check" THEN JsonDeserialize("records.json") ELSE <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == Abs(x - y) <= tol
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
RECURSIVE Diff(_, _)
Diff(s, k) == IF k = 0 THEN s ELSE Diff([i \in 1..(Len(s) - 1) |-> s[i + 1] - s[i]], k - 1)
Column(rows, j, m) == [i \in 1..m |-> rows[i][j]]
Count(s, a) == Cardinality({i \in 1..Len(s) : Abs(s[i]) <= a})
Share(s, a, lo, hi) == 100 * Count(s, a) >= lo * Len(s) /\ 100 * Count(s, a) <= hi * Len(s)
MoreThan(s, a) == Cardinality({i \in 1..Len(s) : s[i] > a})

Shape(r, o) == /\ o.order = Order(r.form, r.dim)
               /\ Len(o.rows) = r.n /\ \A i \in 1..r.n : Len(o.rows[i]) = Len(o.order)
               /\ Len(o.time) = r.n
               /\ \A i \in 1..r.n : Near((r.n - 1) * o.time[i], (r.n - 1) * 1000 * r.span[1] + (i - 1) * 1000 * (r.span[2] - r.span[1]), r.n)
Start(r, o) == \A j \in 1..Len(o.order) : Abs(o.rows[1][j]) <= IF r.gen = "gp" THEN 400 ELSE 1
Bounded(r, o) == r.norm = 0 => \A i \in 1..r.n, j \in 1..Len(o.order) :
                   o.rows[i][j] >= 1000 * r.bounds[j][1] - 1 /\ o.rows[i][j] <= 1000 * r.bounds[j][2] + 1
Cycles(r, o) == \A k \in 0..(r.n - 1) : o.ids[k + 1] = o.ids[Fold(r, k) + 1]
NormSq(r, o, i) == SumTo([j \in 1..Len(o.order) |-> Weight(r.form, o.order[j]) *
                     (o.rows[i + 1][j] - o.rows[i][j]) * (o.rows[i + 1][j] - o.rows[i][j])], Len(o.order))
Normed(r, o) == r.norm > 0 => \A i \in 1..(Forward(r) - 1) : Near(NormSq(r, o, i), r.norm * r.norm, 8 * r.norm + 40)
Linear(r, o) == r.gen = "prop" => LET f == Forward(r) - 1 IN
  \A i \in 1..f, j \in 1..Len(o.order) : Near(f * o.rows[i + 1][j], i * o.rows[f + 1][j], 2 * f + 2)
Smooth(r, o) == (r.gen = "poly" /\ r.norm = 0 /\ Forward(r) > r.nc) =>
  \A j \in 1..Len(o.order) : LET d == Diff(Column(o.rows, j, Forward(r)), r.nc) IN \A i \in 1..Len(d) : Abs(d[i]) <= 20
\* components are sampled independently
Free(r) == {j \in 1..Len(r.bounds) : r.bounds[j] # <<0, 0>>}
Distinct(r, o) == r.norm = 0 => \A i, j \in Free(r) : (i # j /\ r.bounds[i] = r.bounds[j] /\ r.bounds[i][1] < 0 /\ r.bounds[i][2] > 0) =>
  \E k \in 1..r.n : o.rows[k][i] # o.rows[k][j]
PathClauses(r, o) ==
  IF Refused(r) THEN (IF o.ok THEN {"accepted"} ELSE {})
  ELSE IF ~o.ok THEN {"refused"}
  ELSE IF ~Shape(r, o) THEN {"shape, order or time"}
  ELSE {x \in {"start", "bounds", "cycles", "norm", "linear", "degree", "independent"} :
          ~(CASE x = "start" -> Start(r, o) [] x = "bounds" -> Bounded(r, o) [] x = "cycles" -> Cycles(r, o)
              [] x = "norm" -> Normed(r, o) [] x = "linear" -> Linear(r, o) [] x = "degree" -> Smooth(r, o)
              [] x = "independent" -> Distinct(r, o))}
\* noise of a path: none at the start, declared spread at every other point of the loading branch
NoisyShape(r, o) == Len(o.noisy) = r.n /\ Len(o.nids) = r.n /\ \A i \in 1..r.n : Len(o.noisy[i]) = Len(o.order)
NoisyClauses(r, o) ==
  IF ~o.ok THEN {"refused"}
  ELSE IF ~Shape(r, o) THEN {"shape, order or time"}
  ELSE IF ~NoisyShape(r, o) THEN {"shape of the noisy path"}
  ELSE LET f == Forward(r)
           d == [i \in 1..(f - 1) * Len(o.order) |-> LET k == ((i - 1) \div Len(o.order)) + 2  j == ((i - 1) % Len(o.order)) + 1
                                               IN o.noisy[k][j] - o.rows[k][j]]
       IN
     {x \in {"start", "none", "spread", "sign", "cycles"} :
       ~(CASE x = "start" -> \A j \in 1..Len(o.order) : Near(o.noisy[1][j], o.rows[1][j], 1)
           [] x = "none" -> r.std = 0 => \A i \in 1..Len(d) : Abs(d[i]) <= 1
           [] x = "spread" -> r.std > 0 => Share(d, r.std, 58, 78) /\ Share(d, 2 * r.std, 91, 99) /\ \A i \in 1..Len(d) : Abs(d[i]) <= 7 * r.std
           [] x = "sign" -> r.std > 0 => 10 * MoreThan(d, 0) >= 4 * Len(d) /\ 10 * MoreThan(d, 0) <= 6 * Len(d)
           [] x = "cycles" -> Cycles(r, [ids |-> o.nids]))}
\* additive noise: row t has weight w[t]; half width of uniform noise a/2 (1 + w), deviation a sqrt(1 + w^2)
Spike(r, x) == IF r.dist # "spiked_gaussian" THEN x ELSE IF 2 * x > r.spike THEN x - r.spike ELSE x
NoiseRow(r, o, t) ==
  LET w == IF r.var = "homoscedastic" THEN -1 ELSE IF r.w = <<>> THEN 1 ELSE r.w[t]
      s == [i \in 1..Len(o.noise[t]) |-> Spike(r, o.noise[t][i])]
      spikes == Cardinality({i \in 1..Len(s) : s[i] # o.noise[t][i]})
      ww == IF w < 0 THEN 0 ELSE w
  IN /\ IF r.dist = "uniform"
        THEN \A i \in 1..Len(s) : 2 * Abs(s[i]) <= r.amp * (1 + ww) + 2
        ELSE \A i \in 1..Len(s) : Abs(s[i]) <= 6 * r.amp * (1 + ww) + 1
     /\ r.amp > 0 => 10 * MoreThan(s, 0) >= 4 * Len(s) /\ 10 * MoreThan(s, 0) <= 6 * Len(s)
     /\ (r.amp > 0 /\ r.dist = "uniform" /\ ww = 0) => Share(s, r.amp \div 4, 42, 58)
     \* sum of two equal uniforms: 3/4 within half of the range
     /\ (r.amp > 0 /\ r.dist = "uniform" /\ ww = 1) => Share(s, r.amp \div 2, 67, 83)
     /\ (r.amp > 0 /\ r.dist # "uniform" /\ ww = 0) => Share(s, r.amp, 60, 76)
     /\ (r.amp > 0 /\ r.dist # "uniform" /\ ww = 1) => Share(s, (r.amp * 1414) \div 1000, 60, 76)
     /\ (r.amp > 0 /\ r.dist # "uniform" /\ ww = 3) => Share(s, (r.amp * 3162) \div 1000, 60, 76)
     /\ r.dist = "spiked_gaussian" => 100 * 8 * spikes >= (100 * r.p - (IF r.p = 4 THEN 64 ELSE 0)) * Len(s)
                                      /\ 100 * 8 * spikes <= (100 * r.p + (IF r.p = 4 THEN 64 ELSE 0)) * Len(s)
NoiseClauses(r, o) == (IF o.ok THEN {} ELSE {"refused"}) \cup (IF o.kept THEN {} ELSE {"noiseless path changed"})
  \cup {"row" : t \in {t \in 1..Len(o.noise) : ~NoiseRow(r, o, t)}}
Random(r) == Cardinality(Free(r)) >= 2 \/ (r.norm = 0 /\ Free(r) # {})
\* the same request and seed give the same path, whatever was asked before; other seeds give others
Asked(q) == {i \in 1..Len(q) : q[i].req.op = "path" /\ q[i].out.ok}
Seeds(q) == \A i, j \in Asked(q) : (i < j /\ [q[i].req EXCEPT !.seed = 0] = [q[j].req EXCEPT !.seed = 0]) =>
  IF q[i].req.seed = q[j].req.seed THEN q[i].out.pid = q[j].out.pid
  ELSE (Random(q[i].req) => q[i].out.pid # q[j].out.pid)
Verdict(q) == [steps |-> [i \in 1..Len(q) |-> CASE q[i].req.op = "path" -> PathClauses(q[i].req, q[i].out)
                                                [] q[i].req.op = "noisy" -> NoisyClauses(q[i].req, q[i].out)
                                                [] q[i].req.op = "noise" -> NoiseClauses(q[i].req, q[i].out)],
               seeds |-> Seeds(q)]
CheckInit == hist \in {<<i>> : i \in 1..Len(Records)} /\ n = 0 /\ done = FALSE
Check == ~done /\ done' = TRUE /\ UNCHANGED <<hist, n>>

Init == IF Mode = "ask" THEN AskInit ELSE CheckInit
Next == IF Mode = "ask" THEN Ask ELSE Check
Spec == Init /\ [][Next]_vars

\* design: the fold starts and ends at the initial strain, moves by one point, and turns only at the ends
Design == \A r \in [n : 3..26, c : 0..6] : (r.c > 0 /\ r.n >= 2 * r.c + 1) =>
  LET f == Forward(r) - 1 IN
  /\ f >= 1 /\ 2 * f * r.c + 1 <= r.n /\ Fold(r, 0) = 0 /\ Fold(r, r.n - 1) = 0
  /\ 2 * (f + 1) * r.c + 1 > r.n                              \* no longer branch would fit
  /\ \A k \in 1..(r.n - 1) : Abs(Fold(r, k) - Fold(r, k - 1)) <= 1 /\ Fold(r, k) \in 0..f
  /\ Cardinality({k \in 0..(r.n - 1) : Fold(r, k) = f}) = r.c
Emit == done => PrintT("@@" \o ToJson(IF Mode = "ask" THEN [ops |-> hist] ELSE [i |-> hist[1], v |-> Verdict(Records[hist[1]])]))
===============================================================================
