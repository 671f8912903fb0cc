--------------------------------- MODULE Params -------------------------------
(* Learnable parameters of a recurrent constitutive model (C16). A parameter   *)
(* has physical bounds; it is stored as it is, or normalized to [-1, 1]. All    *)
(* quantities are integers: physical values in 1/64 of the unit of the          *)
(* parameter, normalized values in 1/64.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Material, Norm, MaxOps, Sim
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S

\* the learnable parameters of each material, and the material constant each one drives
LouYield == {"yield_a_s0", "yield_b_s0", "yield_c_s0", "yield_d_s0", "yield_a_a", "yield_b_a", "yield_c_a",
             "yield_d_a", "yield_a_b", "yield_b_b", "yield_c_b", "yield_d_b"}
DPYield == {"yield_cohesion_parameter", "yield_pressure_parameter", "flow_pressure_parameter"}
Names == CASE Material = "elastic" -> {"E", "v"}
           [] Material = "von_mises" -> {"E", "v", "s0", "a", "b"}
           [] Material = "von_mises_mixed" -> {"E", "v", "s0", "a", "b", "kin_s0", "kin_a", "kin_b"}
           [] Material = "drucker_prager" -> {"E", "v", "s0", "a", "b", "friction_angle"} \cup DPYield
           [] Material = "lou_zhang_yoon" -> {"E", "v", "s0", "a", "b"} \cup LouYield
Const(p) ==
  CASE p \in {"E", "v", "friction_angle"} \cup DPYield -> <<"material", p>>
    [] p \in {"s0", "a", "b"} -> <<"hardening", p>>
    [] p = "kin_s0" -> <<"kinematic_hardening", "s0">>
    [] p = "kin_a" -> <<"kinematic_hardening", "a">>
    [] p = "kin_b" -> <<"kinematic_hardening", "b">>
    [] p = "yield_a_s0" -> <<"a_hardening", "s0">> [] p = "yield_a_a" -> <<"a_hardening", "a">>
    [] p = "yield_a_b" -> <<"a_hardening", "b">>   [] p = "yield_b_s0" -> <<"b_hardening", "s0">>
    [] p = "yield_b_a" -> <<"b_hardening", "a">>   [] p = "yield_b_b" -> <<"b_hardening", "b">>
    [] p = "yield_c_s0" -> <<"c_hardening", "s0">> [] p = "yield_c_a" -> <<"c_hardening", "a">>
    [] p = "yield_c_b" -> <<"c_hardening", "b">>   [] p = "yield_d_s0" -> <<"d_hardening", "s0">>
    [] p = "yield_d_a" -> <<"d_hardening", "a">>   [] p = "yield_d_b" -> <<"d_hardening", "b">>

CD == {"yield_c_s0", "yield_d_s0"}
VARIABLES learn,        \* learnable parameters
          lo, hi,       \* physical bounds of every parameter
          base,         \* physical value of the parameters that are not learnable
          raw,          \* stored values of the learnable ones
          frozen, fresh, hist, n, done
vars == <<learn, lo, hi, base, raw, frozen, fresh, hist, n, done>>

Phys(p, r) == IF Norm THEN lo[p] + ((hi[p] - lo[p]) \div 128) * (r + 64) ELSE r
Raw(p, x) == IF Norm THEN ((x - lo[p]) \div ((hi[p] - lo[p]) \div 128)) - 64 ELSE x
Clamp(p, r) == LET a == IF Norm THEN -64 ELSE lo[p]
                   b == IF Norm THEN 64 ELSE hi[p] IN IF r < a THEN a ELSE IF r > b THEN b ELSE r
Value(p) == IF p \in learn THEN Phys(p, raw[p]) ELSE base[p]
Inside == \A p \in learn : lo[p] <= Value(p) /\ Value(p) <= hi[p]

\* convex yield surfaces of the Lou model: exactly known on the axes (c in units, d in 3 sqrt(3) / 8)
CLow == -216
CHigh == 144
DMax == 128
Axis == Material # "lou_zhang_yoon" \/ Value("yield_c_s0") = 0 \/ Value("yield_d_s0") = 0
Convex == LET c == Value("yield_c_s0") d == Value("yield_d_s0") IN
  IF d = 0 THEN CLow <= c /\ c <= CHigh ELSE -DMax <= d /\ d <= DMax
Project(p, x) == IF p = "yield_c_s0" THEN (IF x < CLow THEN CLow ELSE IF x > CHigh THEN CHigh ELSE x)
                 ELSE (IF x < -DMax THEN -DMax ELSE IF x > DMax THEN DMax ELSE x)

LearnSets == {S \in SUBSET Names : S # {} /\ ("friction_angle" \notin S \/ S \cap DPYield = {})
                                     /\ Cardinality(S) <= 4}
BigSets == IF Sim THEN {{p \in Names : p # "friction_angle"}, {p \in Names : p \notin DPYield}} ELSE {}
\* bounds: a width that normalized levels divide; the convexity parameters have bounds around zero
\* TLC draws one simulated initial state per element of the pool, so sampled runs start differently
Pool == IF Sim THEN 1..256 ELSE {1}
Init == \E pool \in Pool :
  /\ learn \in Choice(IF Material = "lou_zhang_yoon"
       THEN {CD, {"yield_c_s0"}, {"yield_d_s0"}, CD \cup {"E", "s0"}, {"yield_a_s0", "yield_b_a", "yield_c_b"},
             {"yield_d_a", "yield_a_b", "v"}, {"yield_b_s0", "yield_c_a", "yield_d_b", "a"}, Names}
       ELSE LearnSets \cup BigSets)
  /\ \E a \in Choice(IF Sim THEN 1..3 ELSE {1}), b \in Choice(1..2), k \in Choice(IF Sim THEN 0..3 ELSE {1}) :
       /\ lo = [p \in Names |-> IF p \in CD THEN -256 ELSE 64 * (a + (Cardinality(learn \ {p}) % 2))]
       /\ hi = [p \in Names |-> IF p \in CD THEN 256 ELSE lo[p] + 128 * b]
       /\ base = [p \in Names |-> IF p \in CD THEN 0 ELSE lo[p] + 32 * k]
  /\ \E k \in Choice(0..4), z \in Choice(BOOLEAN) :
       raw = [p \in learn |-> Raw(p, IF p \in CD THEN (IF z /\ p = "yield_c_s0" THEN 0 ELSE 16 * k)
                                     ELSE lo[p] + 32 * k)]
  /\ frozen = {} /\ fresh = FALSE
  /\ hist = <<[op |-> "init", raw |-> {[p |-> q, v |-> raw[q]] : q \in learn},
              phys |-> {[p |-> q, v |-> Phys(q, raw[q])] : q \in learn}]>>
  /\ n = 0 /\ done = FALSE

Log(op) == /\ hist' = Append(hist, op @@ [raw |-> {[p |-> q, v |-> raw'[q]] : q \in learn},
                                          phys |-> {[p |-> q, v |-> Phys(q, raw'[q])] : q \in learn}])
           /\ n' = n + 1 /\ done' = FALSE /\ UNCHANGED <<learn, lo, hi, base>>

\* a training step moves the parameters that are not frozen, anywhere
Delta(p, k, m) == LET x == ((k * (m + Cardinality({q \in learn : q = p \/ hi[q] > hi[p]})) * 7) % 41) - 20
                  IN IF Material = "lou_zhang_yoon" /\ p \in CD THEN 12 * x ELSE 6 * x
Step == \E k \in Choice(IF Sim THEN 0..40 ELSE {3, 17, 40}), m \in Choice(IF Sim THEN 1..5 ELSE {2}), only \in Choice({learn} \cup {{p} : p \in learn}) :
  LET dl == [p \in learn |-> IF p \in only /\ p \notin frozen THEN Delta(p, k, m) ELSE 0]
  IN /\ raw' = [p \in learn |-> raw[p] + dl[p]] /\ fresh' = FALSE
     /\ UNCHANGED frozen
     /\ Log([op |-> "step", grad |-> {[p |-> q, v |-> IF q \in only THEN Delta(q, k, m) ELSE 0] : q \in learn}])

\* bounds first, then the constraints of the material
Clamped == [p \in learn |-> Clamp(p, raw[p])]
EnforceBounds == /\ raw' = Clamped /\ fresh' = FALSE /\ UNCHANGED frozen /\ Log([op |-> "bounds"])
Off(r) == {p \in CD : p \in learn /\ Phys(p, r[p]) # 0} \cup {p \in CD : p \notin learn /\ base[p] # 0}
Enforce == LET c == Clamped IN
  /\ IF Material = "lou_zhang_yoon" /\ CD \cap learn # {} /\ Cardinality(Off(c)) = 1
     THEN raw' = [p \in learn |-> IF p \in CD THEN Raw(p, Project(p, Phys(p, c[p]))) ELSE c[p]]
     ELSE raw' = c
  /\ ~(Material = "lou_zhang_yoon" /\ CD \cap learn # {} /\ Cardinality(Off(c)) = 2)
  /\ fresh' = TRUE /\ UNCHANGED frozen /\ Log([op |-> "enforce"])
\* both convexity parameters off the axes: the result is only related to the values before (driver)
EnforceFree == LET c == Clamped IN
  /\ Material = "lou_zhang_yoon" /\ CD \cap learn # {} /\ Cardinality(Off(c)) = 2
  /\ raw' = c /\ fresh' = FALSE /\ UNCHANGED frozen /\ n' = MaxOps
  /\ hist' = Append(hist, [op |-> "free", raw |-> {[p |-> q, v |-> raw'[q]] : q \in learn},
                           phys |-> {[p |-> q, v |-> Phys(q, raw'[q])] : q \in learn}])
  /\ done' = FALSE /\ UNCHANGED <<learn, lo, hi, base>>

Freeze == \E p \in Choice(learn) : frozen' = frozen \cup {p} /\ UNCHANGED <<raw, fresh>> /\ Log([op |-> "freeze", p |-> p])
Read == \E nrm \in Choice(BOOLEAN) : UNCHANGED <<raw, frozen, fresh>> /\ Log([op |-> "read", norm |-> nrm])
\* the response uses the current physical values (only asked for admissible ones)
Respond == /\ fresh /\ Inside /\ UNCHANGED <<raw, frozen, fresh>>
           /\ Log([op |-> "respond", const |-> {[c |-> Const(p), v |-> Value(p)] : p \in Names \ (IF "friction_angle"
                   \in learn THEN DPYield ELSE {"friction_angle"})}])
\* a model rebuilt from its files has the same stored values
Reload == UNCHANGED <<raw, fresh>> /\ frozen' = {} /\ Log([op |-> "reload"])

Finish == n >= MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<learn, lo, hi, base, raw, frozen, fresh, hist, n>>
\* (sampled behaviours ask for the response after most enforcements)
Asked == Sim /\ fresh /\ hist[Len(hist)].op = "enforce" /\ n % 4 # 0
Next == (n < MaxOps /\ IF Asked THEN Respond ELSE (Step \/ EnforceBounds \/ Enforce \/ EnforceFree \/ Freeze \/ Read \/ Respond \/ Reload)) \/ Finish
Spec == Init /\ [][Next]_vars

\* design
Admissible == fresh => (Inside /\ (Material = "lou_zhang_yoon" /\ Axis => Convex))
Idempotent == (fresh /\ Inside) => Clamped = raw
Inverse == \A p \in learn : Raw(p, Phys(p, raw[p])) = raw[p]
Emit == done => PrintT("@@" \o ToJson([
  learn |-> learn, norm |-> Norm, lo |-> {[p |-> p, v |-> lo[p]] : p \in Names},
  hi |-> {[p |-> p, v |-> hi[p]] : p \in Names}, base |-> {[c |-> Const(p), p |-> p, v |-> base[p]] : p \in Names},
  ops |-> hist]))
===============================================================================
