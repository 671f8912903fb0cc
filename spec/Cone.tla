-------------------------------- MODULE Cone ----------------------------------
(* Drucker-Prager plasticity with cohesion hardening (C09-C11), in exact       *)
(* integer arithmetic. Deviatoric stresses are vectors whose Euclidean norm is *)
(* sqrt(J2) (quarter levels times 315); pressures, cohesion and K*volume are   *)
(* in levels, accumulated plastic strain times G in levels. Parameters:        *)
(* yield pressure a/4, flow pressure f/4, cohesion x/4, kappa = K/G.           *)
(* A plastic step is built from its solution (cone: flow direction and         *)
(* multiplier; apex: volumetric plastic strain), which determines the trial    *)
(* stress and so the strain increment.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Law,       \* cohesion hardening "linear", "piecewise", "sqrt", "square"
          Mode,      \* "full", "flat" (no volume change, two directions), "away" (trial
                     \* pressures away from the apex), "axial" (one axis, away from the apex)
          Assoc,     \* flow and yield pressure parameters equal
          MaxOps, MaxInc, Small, Sim,
          Pick       \* 0: any material; k > 0: eight materials
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S

VARIABLES C0, HS, ka, a, f, x,
          A, T, Nd, p, tot, V,    \* stress is T quarter levels in direction Nd, pressure p
          hist, n, done
pars == <<C0, HS, ka, a, f, x>>
vars == <<C0, HS, ka, a, f, x, A, T, Nd, p, tot, V, hist, n, done>>

Base == {<<315, 0, 0>>, <<189, 252, 0>>, <<105, 210, 210>>, <<90, 135, 270>>,
         <<35, 140, 280>>, <<140, 140, 245>>}
Perms == {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
Signs == {-1, 1}
Dirs ==
  IF Mode = "axial" \/ Small THEN {<<315, 0, 0>>}
  ELSE IF Mode = "flat"
  THEN {<<r * v[q[1]], s * v[q[2]], 0>> : v \in {<<315, 0, 0>>, <<189, 252, 0>>},
                                           q \in {<<1, 2, 3>>, <<2, 1, 3>>}, r \in Signs, s \in Signs}
  ELSE {<<r * v[q[1]], s * v[q[2]], t * v[q[3]]>> :
           v \in Base, q \in Perms, r \in Signs, s \in Signs, t \in Signs}
\* all values up to k (exhaustive model: only the extreme ones)
UpTo(k) == IF Small THEN {0, 1, k \div 2, k} \cap 0..k ELSE 0..k
Scale(k, v) == <<k * v[1], k * v[2], k * v[3]>>
Plus(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
Minus(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Zero == <<0, 0, 0>>
Stress == Scale(T, Nd)

Root(z) == CHOOSE j \in 0..z : j * j = z
\* cohesion at accumulated plastic strain z
Coh(z) ==
  CASE Law = "linear"    -> C0 + HS * z
    [] Law = "piecewise" -> IF z <= 16 THEN C0 + HS * z ELSE C0 + HS * 16
    [] Law = "sqrt"      -> C0 + HS * Root(z + 4)         \* Nadai-Ludwik, b = 1/2, ep0 = 4
    [] Law = "square"    -> C0 + HS * (z + 1) * (z + 1)   \* Nadai-Ludwik, b = 2, ep0 = 1
\* plastic multipliers (in 4 levels) whose hardening is on the grid
Mults == CASE Law = "sqrt" -> {Root(A + 4) + 1}
           [] Law = "square" -> {1}
           [] OTHER -> 1..MaxInc

\* materials of a run: 200 random ones, or eight determined by Pick
Pool == IF ~Sim \/ Small THEN {1} ELSE IF Pick = 0 THEN 1..200 ELSE 1..8
Digit(q, d) == ((Pick * 7919 + q * 10477) % 100003) \div d
One(S, q, d) == IF Pick = 0 \/ Small THEN Choice(S)
                ELSE {CHOOSE v \in S : Cardinality({w \in S : w < v}) = Digit(q, d) % Cardinality(S)}
Init == \E q \in Pool :
        /\ C0 \in One(IF Small THEN {3} ELSE 3..9, q, 1)
        /\ HS \in One(IF Small THEN {1} ELSE IF Law = "linear" THEN 0..2 ELSE {1, 2}, q, 7)
        /\ ka \in One(IF Small THEN {1, 2} ELSE 1..3, q, 29)
        /\ a \in One(IF Small THEN {1, 2} ELSE 1..3, q, 101)
        /\ f \in One(IF Assoc THEN {a} ELSE IF Small THEN {1, 2} ELSE 1..3, q, 379)
        /\ x \in One(IF Small \/ Law \in {"sqrt", "square"} THEN {4} ELSE 3..6, q, 1009)
        /\ A = 0 /\ T = 0 /\ Nd = <<315, 0, 0>> /\ p = 0 /\ tot = Zero /\ V = 0
        /\ hist = <<>> /\ n = 0 /\ done = FALSE

\* step to total strain tot + inc, volume V + dv
Log(kind, inc, dv, g, ttr) ==
  /\ tot' = Plus(tot, inc) /\ V' = V + dv
  /\ hist' = Append(hist, [kind |-> kind, inc |-> inc, dv |-> dv, g |-> g, ttr |-> ttr,
                           A |-> A', T |-> Scale(T', Nd'), t |-> T', p |-> p', tot |-> tot', V |-> V',
                           c |-> Coh(A'), ptr |-> p + dv])
  /\ n' = n + 1 /\ done' = FALSE /\ UNCHANGED pars
PMin == IF Small THEN -1 ELSE -15
Away(ptr) == Mode \in {"away", "axial"} => 100 * a * ptr <= 99 * x * Coh(A)

Elastic == \E N \in Choice(Dirs) :
  \E q \in Choice(IF Mode = "flat" THEN {p} ELSE PMin..((x * Coh(A) - 1) \div a)) :
    /\ x * Coh(A) - a * q >= 1
    /\ \E t \in Choice(UpTo(x * Coh(A) - a * q - 1)) :
         /\ T' = t /\ Nd' = N /\ p' = q /\ UNCHANGED A
         /\ Log("elastic", Minus(Scale(t, N), Stress), q - p, 0, t)

\* smooth return to the cone: multiplier 4 g levels, new pressure q
Cone == \E N \in Choice(Dirs), g \in Choice(Mults) :
  LET c1 == Coh(A + x * g) IN
  \E q \in Choice(IF Mode = "flat" THEN {p - ka * f * g} ELSE PMin..((x * c1 - 1) \div a)) :
    LET t == x * c1 - a * q
        ptr == q + ka * f * g
        ttr == t + 16 * g
    IN /\ t >= 1 /\ Away(ptr)
       /\ T' = t /\ Nd' = N /\ p' = q /\ A' = A + x * g
       /\ Log("cone", Minus(Scale(ttr, N), Stress), ptr - p, g, ttr)

\* return to the apex: volumetric plastic strain f m levels
Apex == Mode = "full" /\ \E N \in Choice(Dirs), m \in Choice(Mults) :
  LET c1 == Coh(A + x * m) IN
  /\ (x * c1) % a = 0
  /\ \E ttr \in Choice(UpTo(16 * m - 1)) :
       LET q == (x * c1) \div a
           ptr == q + ka * f * m
       IN /\ T' = 0 /\ Nd' = N /\ p' = q /\ A' = A + x * m
          /\ Log("apex", Minus(Scale(ttr, N), Stress), ptr - p, m, ttr)

Finish == n >= MaxOps /\ ~done /\ done' = TRUE
          /\ UNCHANGED <<C0, HS, ka, a, f, x, A, T, Nd, p, tot, V, hist, n>>
Next == (n < MaxOps /\ (Elastic \/ Cone \/ Apex)) \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- what the property says, on the model -----------------------------------
Admissible == T + a * p <= x * Coh(A) /\ T >= 0
Last == hist'[Len(hist')]
Stepped == hist' # hist
\* yield function of the elastic trial state
Trial == Last.ttr + a * (p + Last.dv) - x * Coh(A)
ElasticIff == [][Stepped => (Last.kind = "elastic" <=> Trial <= 0)]_vars
OnSurface == [][Stepped /\ Last.kind # "elastic" => T' + a * p' = x * Coh(A')]_vars
\* cone residual when the deviatoric stress has just vanished (only whole multipliers 4 h = ttr/4)
AtZero(h) == a * (p + Last.dv - ka * f * h) - x * Coh(A + x * h)
ApexIff == [][Stepped /\ Last.kind # "elastic" /\ Law \in {"linear", "piecewise"} =>
    /\ (\E h \in 0..50 : 16 * h >= Last.ttr /\ AtZero(h) > 0) => Last.kind = "apex"
    /\ (\E h \in 0..50 : 16 * h <= Last.ttr /\ AtZero(h) < 0) => Last.kind = "cone"]_vars
\* dilatancy: volumetric plastic strain follows accumulated plastic strain, ratio f / x
Dilatancy == x * (V - p) = ka * f * A
Irreversible == [][A' >= A]_vars
View == <<pars, A, T, p, V, n, done>>
Emit == done => PrintT("@@" \o ToJson([c0 |-> C0, hs |-> HS, ka |-> ka, a |-> a, f |-> f, x |-> x,
                                       law |-> Law, hist |-> hist]))
===============================================================================
