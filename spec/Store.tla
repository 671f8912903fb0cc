-------------------------------- MODULE Store --------------------------------
(* Pure operators on a set of stored states [m, kind, e, v].                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

None == -1
Key(f) == <<f.m, f.kind, f.e>>
Put(fs, f) == {g \in fs : Key(g) # Key(f)} \cup {f}
DropPosterior(fs, m, e) == {g \in fs : ~(g.m = m /\ g.kind = "ep" /\ g.e > e)}
DropBest(fs, m) == {g \in fs : ~(g.m = m /\ g.kind = "best")}
Has(fs, m, k, e) == \E g \in fs : Key(g) = <<m, k, e>>
Get(fs, m, k, e) == CHOOSE g \in fs : Key(g) = <<m, k, e>>
Eps(fs, m) == {g.e : g \in {h \in fs : h.m = m /\ h.kind = "ep"}}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x

\* result of storing version v of model m under (kind, e)
Stored(fs, m, kind, e, rm, v) ==
  LET k  == IF kind \in {"best", "init"} THEN kind ELSE IF e = None THEN "def" ELSE "ep"
      a  == IF kind = "best" THEN DropBest(fs, m) ELSE fs
      b  == Put(a, [m |-> m, kind |-> k, e |-> IF kind = "init" THEN None ELSE e, v |-> v])
  IN IF e # None /\ rm THEN DropPosterior(b, m, e) ELSE b

\* epoch and stored state designated by a load request
Target(fs, m, what, e) ==
  CASE what = "init" -> [k |-> "init", e |-> None, ret |-> 0]
    [] what = "def"  -> [k |-> "def", e |-> None, ret |-> None]
    [] what = "ep"   -> [k |-> "ep", e |-> e, ret |-> e]
    [] what = "last" -> LET x == IF Eps(fs, m) = {} THEN None ELSE Max(Eps(fs, m))
                        IN [k |-> "ep", e |-> x, ret |-> x]
    [] what = "best" -> LET B == {g \in fs : g.m = m /\ g.kind = "best"}
                            x == IF B = {} THEN None ELSE (CHOOSE g \in B : TRUE).e
                        IN [k |-> "best", e |-> x, ret |-> x]
AfterLoad(fs, m, what, rm, t) ==
  IF rm /\ what # "last" /\ t.ret # None THEN DropPosterior(fs, m, t.ret) ELSE fs
===============================================================================
