-------------------------------- MODULE Plast ---------------------------------
(* von Mises plasticity with isotropic and kinematic hardening (C08, C10-C12). *)
(* Backward-Euler return mapping over arbitrary multi-axial strain paths, in   *)
(* exact integer arithmetic: deviatoric quantities are vectors in a 3-dim      *)
(* subspace of the deviatoric space, measured so that the Euclidean norm is    *)
(* the von Mises stress (1 level = 315 units), strains are multiplied by 3G.   *)
(* A plastic step is built from its solution (flow direction and plastic       *)
(* multiplier), which determines the trial stress and so the strain increment. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Law,      \* isotropic hardening: "linear", "soft", "piecewise", "sqrt", "square"
          KLaw,     \* kinematic hardening: "none", "linear", "piecewise"
          MaxOps, MaxInc, Small, Sim,
          Pick      \* 0: any material; k > 0: eight materials (many points of one material)
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S

VARIABLES S0, HS, KS,       \* initial yield stress, isotropic / kinematic slope
          P, Q, B, tot, vol,\* acc. plastic strain, dev. stress, back stress, total strain
          hist, n, done
vars == <<S0, HS, KS, P, Q, B, tot, vol, hist, n, done>>

\* rational unit vectors scaled by 315
Base == IF Small THEN {<<315, 0, 0>>, <<189, 252, 0>>}
        ELSE {<<315, 0, 0>>, <<189, 252, 0>>, <<105, 210, 210>>, <<90, 135, 270>>,
              <<35, 140, 280>>, <<140, 140, 245>>}
Perms == IF Small THEN {<<1, 2, 3>>, <<2, 1, 3>>}
         ELSE {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
Signs == {-1, 1}
Dirs == {<<a * v[p[1]], b * v[p[2]], c * v[p[3]]>> :
           v \in Base, p \in Perms, a \in Signs, b \in Signs, c \in IF Small THEN {1} ELSE Signs}
Scale(k, v) == <<k * v[1], k * v[2], k * v[3]>>
Plus(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
Minus(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Zero == <<0, 0, 0>>

\* exact square root of a perfect square
Root(x) == CHOOSE j \in 0..x : j * j = x
IsSquare(x) == \E j \in 0..x : j * j = x
\* yield stress at accumulated plastic strain p (levels); OnGrid: its value is a whole level
SigY(p) ==
  CASE Law = "linear"    -> S0 + HS * p
    [] Law = "soft"      -> S0 + HS * (p \div 4)         \* linear with a slope below 3G
    [] Law = "piecewise" -> \* slope HS up to 4, slope 1 up to 10, then constant
         IF p <= 4 THEN S0 + HS * p ELSE IF p <= 10 THEN S0 + 4 * HS + (p - 4)
         ELSE S0 + 4 * HS + 6
    [] Law = "sqrt"      -> S0 + HS * Root(p + 4)        \* Nadai-Ludwik, b = 1/2, ep0 = 4
    [] Law = "square"    -> S0 + HS * (p + 1) * (p + 1)  \* Nadai-Ludwik, b = 2, ep0 = 1
OnGrid(p) == IF Law = "sqrt" THEN IsSquare(p + 4) ELSE IF Law = "soft" THEN p % 4 = 0 ELSE TRUE
Kin(p) ==
  CASE KLaw = "none" -> 0
    [] KLaw = "linear" -> KS * p
    [] KLaw = "piecewise" -> IF p <= 6 THEN KS * p ELSE KS * 6

\* materials of a run: 200 random ones, or eight determined by Pick
Pool == IF ~Sim \/ Small THEN {1} ELSE IF Pick = 0 THEN 1..200 ELSE 1..8
Digit(q, d) == ((Pick * 7919 + q * 10477) % 100003) \div d
One(S, q, d) == IF Pick = 0 \/ Small THEN Choice(S)
                ELSE {CHOOSE v \in S : Cardinality({w \in S : w < v}) = Digit(q, d) % Cardinality(S)}
Init == \E q \in Pool :
        /\ S0 \in One(IF Small THEN {3} ELSE 3..9, q, 1)
        /\ HS \in One(IF Small THEN {1} ELSE IF Law \in {"sqrt", "square"} THEN {1, 2}
                      ELSE IF Law = "piecewise" THEN 1..3 ELSE 0..3, q, 7)
        /\ KS \in One(IF Small THEN {1} ELSE IF KLaw = "none" THEN {0} ELSE 1..3, q, 29)
        /\ P = 0 /\ Q = Zero /\ B = Zero /\ tot = Zero /\ vol = 0
        /\ hist = <<>> /\ n = 0 /\ done = FALSE

Log(kind, inc, dv, N, r) ==
  /\ hist' = Append(hist, [kind |-> kind, inc |-> inc, dv |-> dv, P |-> P', Q |-> Q', B |-> B',
                           tot |-> tot', vol |-> vol', sy |-> SigY(P'), dir |-> N, r |-> r])
  /\ n' = n + 1 /\ done' = FALSE /\ UNCHANGED <<S0, HS, KS>>

\* any increment whose trial stress has a relative stress r < sigY in direction N
Elastic == \E N \in Choice(Dirs), r \in Choice(0..(SigY(P) - 1)), dv \in Choice({-5, -1, 0, 2, 7}) :
  LET trial == Plus(B, Scale(r, N))
      inc == Minus(trial, Q)
  IN /\ Q' = trial /\ UNCHANGED <<P, B>>
     /\ tot' = Plus(tot, inc) /\ vol' = vol + dv
     /\ Log("elastic", inc, dv, N, r)

\* any increment with flow direction N and plastic multiplier d
Plastic == \E N \in Choice(Dirs), dv \in Choice({-5, -1, 0, 2, 7}),
              d \in Choice({x \in 1..MaxInc : OnGrid(P + x)} \cup (IF Law = "sqrt" THEN {Root(P + 4) * 2 + 1} ELSE {4})) :
  LET B1 == Plus(B, Scale(Kin(P + d) - Kin(P), N))
      Q1 == Plus(B1, Scale(SigY(P + d), N))
      trial == Plus(Q1, Scale(d, N))
      inc == Minus(trial, Q)
  IN /\ P' = P + d /\ B' = B1 /\ Q' = Q1
     /\ tot' = Plus(tot, inc) /\ vol' = vol + dv
     /\ Log("plastic", inc, dv, N, d)

Finish == n >= MaxOps /\ ~done /\ done' = TRUE
          /\ UNCHANGED <<S0, HS, KS, P, Q, B, tot, vol, hist, n>>
Next == (n < MaxOps /\ (Elastic \/ Plastic)) \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- what the property says, on the model -----------------------------------
Rel == Minus(Q, B)
Admissible == Dot(Rel, Rel) <= 315 * 315 * SigY(P) * SigY(P)
PStrain == Minus(tot, Q)                       \* plastic strain (times 3G)
Irreversible == [][P' >= P]_vars
\* plastic strain and back stress change exactly on plastic steps, onto the surface
Consistent == [][hist' # hist =>
   LET h == hist'[Len(hist')] IN
   IF h.kind = "plastic"
     THEN /\ P' > P
          /\ LET r == Minus(Q', B') IN Dot(r, r) = 315 * 315 * SigY(P') * SigY(P')
          /\ LET dp == Minus(Minus(tot', Q'), PStrain) IN Dot(dp, dp) = 315 * 315 * (P' - P) * (P' - P)
     ELSE P' = P /\ B' = B /\ Minus(tot', Q') = PStrain]_vars
\* the elastic trial of a plastic step is outside the old surface
Outside == [][hist' # hist /\ hist'[Len(hist')].kind = "plastic" =>
   LET t == Minus(Plus(Q, hist'[Len(hist')].inc), B)
   IN Dot(t, t) > 315 * 315 * SigY(P) * SigY(P)]_vars
View == <<S0, HS, KS, P, Q, B, tot, vol, n, done>>
Emit == done => PrintT("@@" \o ToJson([s0 |-> S0, hs |-> HS, ks |-> KS, law |-> Law, klaw |-> KLaw,
                                       hist |-> hist]))
===============================================================================
