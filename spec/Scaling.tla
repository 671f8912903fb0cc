------------------------------- MODULE Scaling --------------------------------
(* Data scaling of a model with two features per side (C07), in exact          *)
(* rationals. A scaler keeps per feature either its range (min-max) or its     *)
(* count, sum and sum of squares (mean-std); the specification of a transform  *)
(* is a rational, or for mean-std the pair (numerator, variance numerator):    *)
(*     z = (n x - s) / sqrt(n q - s^2).                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Values, MaxSamples, MaxRows, MaxOps, NF, Sim
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S

VARIABLES sc, data, hist, n, done
vars == <<sc, data, hist, n, done>>

None == "none"
Vals == {v - 3 : v \in Values}
Rows == [1..NF -> Vals]
\* a data set: samples of one or more rows; feature j of "constant" data sets never varies
RECURSIVE Gen(_)
Gen(k) == IF k = 0 THEN <<>> ELSE <<RandomElement(Rows)>> \o Gen(k - 1)
RECURSIVE GenS(_)
GenS(k) == IF k = 0 THEN <<>> ELSE <<Gen(RandomElement(1..MaxRows))>> \o GenS(k - 1)
Const(d, j, v) == [i \in 1..Len(d) |-> [r \in 1..Len(d[i]) |-> [d[i][r] EXCEPT ![j] = v]]]
AllRows(d) == UNION {{<<i, r>> : r \in 1..Len(d[i])} : i \in 1..Len(d)}
Col(d, j) == {d[p[1]][p[2]][j] : p \in AllRows(d)}
RECURSIVE SumOver(_, _, _, _)
SumOver(d, j, S, sq) == IF S = {} THEN 0
                        ELSE LET p == CHOOSE p \in S : TRUE
                                 x == d[p[1]][p[2]][j]
                             IN (IF sq THEN x * x ELSE x) + SumOver(d, j, S \ {p}, sq)
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y

Stat(d, j) == [min |-> MinS(Col(d, j)), max |-> MaxS(Col(d, j)), n |-> Cardinality(AllRows(d)),
               s |-> SumOver(d, j, AllRows(d), FALSE), q |-> SumOver(d, j, AllRows(d), TRUE)]
IsConst(st) == st.min = st.max

\* transform of x: [num, den] (min-max) or [num, var] (mean-std)
Fwd(z, st, x) ==
  IF z.kind = "min-max"
    THEN IF IsConst(st) THEN [num |-> z.lo, den |-> 1, var |-> 0]
         ELSE [num |-> z.lo * (st.max - st.min) + (z.hi - z.lo) * (x - st.min),
               den |-> st.max - st.min, var |-> 0]
    ELSE [num |-> st.n * x - st.s, den |-> 1, var |-> st.n * st.q - st.s * st.s]
\* inverse transform of t (an integer): [num, den] and for mean-std also the factor of the root
Bwd(z, st, t) ==
  IF z.kind = "min-max"
    THEN [num |-> st.min * (z.hi - z.lo) + (st.max - st.min) * (t - z.lo), den |-> z.hi - z.lo,
          root |-> 0, var |-> 0]
    ELSE [num |-> st.s, den |-> st.n, root |-> t, var |-> st.n * st.q - st.s * st.s]

Init == sc = [kind |-> None] /\ data = <<>> /\ hist = <<>> /\ n = 0 /\ done = FALSE
Log(r) == hist' = Append(hist, r) /\ n' = n + 1 /\ done' = FALSE
Stats(d) == [j \in 1..NF |-> Stat(d, j)]

\* fit on a data set, or set statistics that were fitted elsewhere
Fit == \E k \in {RandomElement({"min-max", "mean-std"})},
          b \in {RandomElement({<<-1, 1>>, <<0, 1>>, <<-3, 5>>})},
          how \in {RandomElement({"fit", "fit", "set"})},
          cj \in {RandomElement(0..(2 * NF))},
          raw \in {GenS(RandomElement(1..MaxSamples))},
          cv \in {RandomElement(Vals)} :
         LET d == IF cj \in 1..NF THEN Const(raw, cj, cv) ELSE raw
             st == Stats(d) IN
         /\ data' = d
         /\ sc' = [kind |-> k, lo |-> b[1], hi |-> b[2], st |-> st]
         /\ Log([op |-> how, kind |-> k, lo |-> b[1], hi |-> b[2], data |-> d, st |-> st])
\* transform rows: values of the data for constant features, anything else otherwise
Admit(x, j) == IF IsConst(sc.st[j]) THEN sc.st[j].min ELSE x
Transform ==
  /\ sc.kind # None
  /\ \E raw \in {GenS(RandomElement(1..3))}, side \in {RandomElement({"in", "out"})},
        dim \in {RandomElement({2, 3})} :
       LET X == [r \in 1..Len(raw[1]) |-> [j \in 1..NF |-> Admit(raw[1][r][j], j)]] IN
       Log([op |-> "transform", side |-> side, dim |-> dim, x |-> X,
            out |-> [r \in 1..Len(X) |-> [j \in 1..NF |-> Fwd(sc, sc.st[j], X[r][j])]]])
  /\ UNCHANGED <<sc, data>>
Inverse ==
  /\ sc.kind # None
  /\ \E raw \in {GenS(1)}, side \in {RandomElement({"in", "out"})},
        dim \in {RandomElement({2, 3})} :
       Log([op |-> "inverse", side |-> side, dim |-> dim, x |-> raw[1],
            out |-> [r \in 1..Len(raw[1]) |-> [j \in 1..NF |-> Bwd(sc, sc.st[j], raw[1][r][j])]]])
  /\ UNCHANGED <<sc, data>>
\* the model is initialized again from its file (or only its scalers are loaded)
Reload == /\ sc.kind # None
          /\ \E how \in {RandomElement({"init", "scalers"})} : Log([op |-> "reload", how |-> how])
          /\ UNCHANGED <<sc, data>>
\* without fitted scalers nothing can be transformed
Refused == /\ sc.kind = None /\ Log([op |-> "refused"]) /\ UNCHANGED <<sc, data>>

Finish == n >= MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<sc, data, hist, n>>
Next == (n < MaxOps /\ (Fit \/ Transform \/ Inverse \/ Reload \/ Refused)) \/ Finish
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
Fitted == sc.kind # None
\* the fitted data is mapped into the prescribed range, attaining both ends
InRange == Fitted /\ sc.kind = "min-max" =>
  \A j \in 1..NF :
    LET st == sc.st[j]
        Y == {Fwd(sc, st, x) : x \in Col(data, j)}
    IN /\ \A y \in Y : sc.lo * y.den <= y.num /\ y.num <= sc.hi * y.den
       /\ \E y \in Y : y.num = sc.lo * y.den
       /\ ~IsConst(st) => \E y \in Y : y.num = sc.hi * y.den
\* zero mean: the numerators over the data add up to zero; the variance is never negative
ZeroMean == Fitted /\ sc.kind = "mean-std" =>
  \A j \in 1..NF :
    LET st == sc.st[j]
        S == AllRows(data)
        RECURSIVE T(_)
        T(R) == IF R = {} THEN 0 ELSE LET p == CHOOSE p \in R : TRUE
                IN Fwd(sc, st, data[p[1]][p[2]][j]).num + T(R \ {p})
    IN T(S) = 0 /\ st.n * st.q - st.s * st.s >= 0 /\ (IsConst(st) <=> st.n * st.q = st.s * st.s)
\* inverse after transform is the identity (min-max; exact rationals)
RoundTrip == Fitted /\ sc.kind = "min-max" =>
  \A j \in 1..NF : \A x \in Vals :
    LET st == sc.st[j]
        y == Fwd(sc, st, x)
    IN ~IsConst(st) => st.min * (sc.hi - sc.lo) * y.den + (st.max - st.min) * (y.num - sc.lo * y.den)
                        = x * (sc.hi - sc.lo) * y.den
Emit == done => PrintT("@@" \o ToJson(hist))
===============================================================================
