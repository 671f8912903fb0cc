------------------------------- MODULE Dataset --------------------------------
(* Time series data sets (C04): a list of samples kept in memory ("M") and one *)
(* kept as files ("D") under feature operations, saving, loading, relocating   *)
(* and conversion. A sample maps feature labels to tuples of columns (integers;*)
(* column c stands for the time series c, 3c, -c).                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Labels, N0, MaxLen, MaxOps, MaxWidth, Sim
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S

VARIABLES ds, gone, fresh, hist, n, done
vars == <<ds, gone, fresh, hist, n, done>>

Drop(f, S) == [l \in (DOMAIN f) \ S |-> f[l]]
Put(f, l, v) == [k \in (DOMAIN f) \cup {l} |-> IF k = l THEN v ELSE f[k]]
Have(d) == IF ds[d] = <<>> THEN {} ELSE DOMAIN ds[d][1]
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

RECURSIVE Cat(_, _, _)
Cat(f, ls, i) == IF i > Len(ls) THEN <<>> ELSE f[ls[i]] \o Cat(f, ls, i + 1)
RECURSIVE SumCols(_, _, _, _)
SumCols(f, ls, w, k) == IF ls = <<>> THEN 0
                        ELSE w[Len(ls)] * f[ls[Len(ls)]][k]
                             + SumCols(f, SubSeq(ls, 1, Len(ls) - 1), w, k)
WSum(f, ls, w) == [k \in 1..Len(f[ls[1]]) |-> SumCols(f, ls, w, k)]

\* k new samples with features of the widths W, every column fresh
NewSamples(W, k, z) == [i \in 1..k |-> [l \in DOMAIN W |-> [c \in 1..W[l] |->
                          z + 20 * i + c + (IF l = "a" THEN 0 ELSE IF l = "b" THEN 6 ELSE 12)]]]
W0 == [l \in {"a", "b"} |-> 1]
Widths(d) == [l \in DOMAIN ds[d][1] |-> Len(ds[d][1][l])]

Init == /\ ds = [d \in {"M", "D"} |-> NewSamples(W0, N0, 0)]
        /\ gone = {} /\ fresh = 100 /\ hist = <<>> /\ n = 0 /\ done = FALSE

Log(r) == /\ hist' = Append(hist, r @@ [M |-> ds'["M"], D |-> ds'["D"], gone |-> gone'])
          /\ n' = n + 1 /\ done' = FALSE
Set(d, s) == ds' = [ds EXCEPT ![d] = s]
Gone(d, add, del) == gone' = IF d = "D" THEN (gone \cup add) \ del ELSE gone

AddSamples == /\ \E k \in Choice(1..2) :
                   LET new == NewSamples(IF Have("M") = {} THEN W0 ELSE Widths("M"), k, fresh) IN
                   /\ Len(ds["M"]) + k <= MaxLen
                   /\ Set("M", ds["M"] \o new)
                   /\ UNCHANGED gone
                   /\ Log([op |-> "add", d |-> "M", new |-> new])
              /\ fresh' = fresh + 40
RemoveSamples == /\ \E I \in Choice(SUBSET (1..Len(ds["M"]))) :
                      /\ LET keep == SelectSeq([i \in 1..Len(ds["M"]) |-> i], LAMBDA i : i \notin I)
                         IN Set("M", [j \in 1..Len(keep) |-> ds["M"][keep[j]]])
                      /\ UNCHANGED gone
                      /\ Log([op |-> "remove", d |-> "M", idx |-> SetToSeq({i - 1 : i \in I})])
                 /\ UNCHANGED fresh
InitFeature == /\ \E d \in Choice({"M", "D"}), l \in Choice(Labels) :
                    /\ Set(d, Map(ds[d], LAMBDA f : Put(f, l, <<fresh>>)))
                    /\ Gone(d, {}, {l})
                    /\ Log([op |-> "init", d |-> d, l |-> l, v |-> fresh])
               /\ fresh' = fresh + 10
\* nonempty sequences of distinct available labels
Pick(d) == LET S == Have(d) \ (IF d = "D" THEN gone ELSE {})
           IN {s \in UNION {[1..k -> S] : k \in 1..Cardinality(S)} : IsInjective(s)}
Concat == /\ \E d \in Choice({"M", "D"}) : \E new \in Choice(Labels), rem \in Choice(BOOLEAN) :
               /\ Pick(d) # {}
               /\ \E ls \in Choice(Pick(d)) :
                    LET S == {ls[i] : i \in 1..Len(ls)} IN
                    /\ Len(Cat(ds[d][1], ls, 1)) <= MaxWidth
                    /\ rem => new \notin S
                    /\ Set(d, Map(ds[d], LAMBDA f : Drop(Put(f, new, Cat(f, ls, 1)),
                                                         IF rem THEN S ELSE {})))
                    /\ Gone(d, IF rem THEN S ELSE {}, {new})
                    /\ Log([op |-> "concat", d |-> d, new |-> new, ls |-> ls, rem |-> rem])
          /\ UNCHANGED fresh
SumF == /\ \E d \in Choice({"M", "D"}) : \E new \in Choice(Labels), rem \in Choice(BOOLEAN) :
             /\ Pick(d) # {}
             /\ \E ls \in Choice(Pick(d)) :
                  \E w \in Choice([1..Len(ls) -> {1, 2, -3}]), dflt \in Choice(BOOLEAN) :
                  LET S == {ls[i] : i \in 1..Len(ls)}
                      ww == IF dflt THEN [i \in 1..Len(ls) |-> 1] ELSE w IN
                  /\ \A i \in 1..Len(ls) : Len(ds[d][1][ls[i]]) = Len(ds[d][1][ls[1]])
                  /\ rem => new \notin S
                  /\ Set(d, Map(ds[d], LAMBDA f : Drop(Put(f, new, WSum(f, ls, ww)),
                                                       IF rem THEN S ELSE {})))
                  /\ Gone(d, IF rem THEN S ELSE {}, {new})
                  /\ Log([op |-> "sum", d |-> d, new |-> new, ls |-> ls, rem |-> rem,
                          w |-> ww, dflt |-> dflt])
        /\ UNCHANGED fresh
Rename == /\ \E d \in Choice({"M", "D"}) : \E old \in Choice(Labels), new \in Choice(Labels) :
               /\ ds[d] # <<>> /\ old # new /\ ~(d = "D" /\ old \in gone)
               /\ IF old \in Have(d)
                    THEN /\ Set(d, Map(ds[d], LAMBDA f : Drop(Put(f, new, f[old]), {old})))
                         /\ Gone(d, {}, {new})
                    ELSE UNCHANGED <<ds, gone>>
               /\ Log([op |-> "rename", d |-> d, old |-> old, new |-> new])
          /\ UNCHANGED fresh
\* features that do not exist are refused and nothing changes
Refused == /\ UNCHANGED <<ds, gone, fresh>>
           /\ \E d \in Choice({"M", "D"}) :
                /\ ds[d] # <<>>
                /\ \E new \in Choice(Labels), k \in Choice({"concat", "sum"}) :
                     Log([op |-> "refused", d |-> d, new |-> new, k |-> k,
                          ls |-> SetToSeq(Have(d) \ gone) \o <<"missing">>])
SaveLoad == /\ UNCHANGED <<ds, gone, fresh>>
            /\ \E d \in Choice({"M", "D"}), app \in Choice(BOOLEAN) :
                 Log([op |-> "saveload", d |-> d, app |-> app, len |-> Len(ds[d])])
Move == UNCHANGED <<ds, gone, fresh>> /\ Log([op |-> "move", d |-> "D"])
Snapshot == UNCHANGED <<ds, gone, fresh>> /\ Log([op |-> "snapshot", d |-> "M"])
Rewrite == /\ ds["D"] # <<>>
           /\ \E i \in Choice(1..Len(ds["D"])) :
                LET f == NewSamples(Widths("D"), 1, fresh)[1] IN
                /\ Set("D", [ds["D"] EXCEPT ![i] = f])
                /\ UNCHANGED gone
                /\ Log([op |-> "rewrite", d |-> "D", i |-> i - 1, f |-> f])
           /\ gone = {} /\ fresh' = fresh + 20
ToMem == /\ gone = {} /\ Len(ds["D"]) <= MaxLen
         /\ Set("M", ds["D"]) /\ UNCHANGED <<gone, fresh>> /\ Log([op |-> "tomem", d |-> "M"])
ToDisk == /\ ds' = [ds EXCEPT !["D"] = ds["M"]] /\ gone' = {} /\ UNCHANGED fresh
          /\ Log([op |-> "todisk", d |-> "D"])

Op == AddSamples \/ RemoveSamples \/ InitFeature \/ Concat \/ SumF \/ Rename \/ Refused
      \/ SaveLoad \/ Move \/ Snapshot \/ Rewrite \/ ToMem \/ ToDisk
Finish == n >= MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<ds, gone, fresh, hist, n>>
Next == (n < MaxOps /\ Op) \/ Finish
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
\* every sample of a data set has the same features, of the same widths
Uniform == \A d \in {"M", "D"} : \A i \in 1..Len(ds[d]) :
             /\ DOMAIN ds[d][i] = Have(d)
             /\ \A l \in Have(d) : Len(ds[d][i][l]) = Len(ds[d][1][l])
\* an operation on one data set leaves the other one alone
Isolated == [][LET r == hist'[Len(hist')] IN
               \A d \in {"M", "D"} : (hist' # hist /\ r.d # d) => ds'[d] = ds[d]]_vars
\* only sample operations change the length
LengthKept == [][hist' # hist =>
                 LET r == hist'[Len(hist')] IN
                 r.op \notin {"add", "remove", "tomem", "todisk"} =>
                   \A d \in {"M", "D"} : Len(ds'[d]) = Len(ds[d])]_vars
View == <<ds, gone, n, done>>
Emit == done => PrintT("@@" \o ToJson(hist))
===============================================================================
