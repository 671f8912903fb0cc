------------------------------- MODULE Recurrent -------------------------------
(* Recurrent models (C22). A memory is what a sample's hidden state stands for:  *)
(* its initial value and the inputs consumed since. Feeding a chunk of inputs to *)
(* a row of memories yields, per row and time, an output that is a function of   *)
(* the row's own history up to that time, and a new memory.                      *)
(* The recurrent constitutive model has no memory between evaluations: each path *)
(* starts from the virgin state.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, MaxOps, MaxLen, MaxRows, Symbols
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S

VARIABLES kind, cfg, store, n, stage, log
vars == <<kind, cfg, store, n, stage, log>>

\* a finite cell stands for any cell in the design
Cell(h, x) == (3 * h + 2 * x + 1) % 7
RECURSIVE Fold(_, _)
Fold(h, s) == IF s = <<>> THEN h ELSE Fold(Cell(h, Head(s)), Tail(s))
Start(i) == i                               \* value of initial state number i (0: zeros)

RECURSIVE Seqs(_)
Seqs(k) == IF k = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Seqs(k - 1), x \in 1..Symbols}
RandSeq(k) == [i \in 1..k |-> RandomElement(1..(Symbols + 0 * n))]
ChunkOf(k) == IF Sim THEN {TLCEval(RandSeq(k))} ELSE Seqs(k)
RECURSIVE RowsOf(_, _, _)
RowsOf(M, k, l) == IF k = 0 THEN {<<>>} ELSE UNION {{Append(r, [from |-> m, xs |-> c]) : m \in Choice(M), c \in ChunkOf(l)} : r \in RowsOf(M, k - 1, l)}

Outs(m, xs) == [k \in 1..Len(xs) |-> [init |-> m.init, hist |-> m.hist \o SubSeq(xs, 1, k)]]
After(m, xs) == [init |-> m.init, hist |-> m.hist \o xs, val |-> Fold(m.val, xs)]

\* handles 1..Len(store); the first three are initial states (zeros, not given, given values)
Fresh == <<[init |-> 0, hist |-> <<>>, val |-> Start(0)], [init |-> 1, hist |-> <<>>, val |-> Start(1)], [init |-> 2, hist |-> <<>>, val |-> Start(2)]>>
Impls == {"torch", "custom", "cell"}
Hows == {"batch", "vmap", "single", "strided"}

Log(e) == log' = Append(log, e)
Feed == /\ kind = "gru" /\ stage = "run" /\ n < MaxOps
        /\ \E k \in Choice(1..MaxRows) : \E l \in Choice(1..MaxLen) : \E rows \in RowsOf(1..Len(store), k, l) :
           \E im \in Choice(IF Sim THEN Impls ELSE {"custom"}) : \E how \in Choice(IF Sim THEN Hows ELSE {"batch"}) :
             /\ store' = store \o [i \in 1..k |-> After(store[rows[i].from], rows[i].xs)]
             /\ Log([op |-> "feed", impl |-> im, how |-> how, rows |-> rows, keep |-> Len(store),
                     outs |-> [i \in 1..k |-> Outs(store[rows[i].from], rows[i].xs)],
                     mem |-> [i \in 1..k |-> [init |-> store'[Len(store) + i].init, hist |-> store'[Len(store) + i].hist]]])
        /\ n' = n + 1 /\ UNCHANGED <<kind, cfg, stage>>
\* from no given hidden state
Plain == /\ kind = "gru" /\ stage = "run" /\ n < MaxOps
         /\ \E k \in Choice(1..MaxRows) : \E l \in Choice(1..MaxLen) : \E rows \in RowsOf({1}, k, l) :
            \E im \in Choice(IF Sim THEN Impls ELSE {"custom"}) : \E how \in Choice(IF Sim THEN Hows \ {"vmap"} ELSE {"batch"}) :
             /\ store' = store \o [i \in 1..k |-> After(store[1], rows[i].xs)]
             /\ Log([op |-> "plain", impl |-> im, how |-> how, rows |-> rows, keep |-> Len(store),
                     outs |-> [i \in 1..k |-> Outs(store[1], rows[i].xs)],
                     mem |-> [i \in 1..k |-> [init |-> 0, hist |-> rows[i].xs]]])
         /\ n' = n + 1 /\ UNCHANGED <<kind, cfg, stage>>
\* recurrent constitutive model: paths of strains
Respond == /\ kind = "rc" /\ stage = "run" /\ n < MaxOps
           /\ \E k \in Choice(1..MaxRows) : \E l \in Choice(1..MaxLen) : \E rows \in RowsOf({1}, k, l) : \E how \in Choice({"batch", "single"}) :
                Log([op |-> "respond", how |-> how, paths |-> [i \in 1..k |-> rows[i].xs]])
           /\ n' = n + 1 /\ UNCHANGED <<kind, cfg, store, stage>>
\* new values of the weights (learnable parameters): histories start again
Retrain == /\ Sim /\ stage = "run" /\ n < MaxOps /\ n > 1 /\ RandomElement(1..4) = 1
           /\ cfg' = [cfg EXCEPT !.weights = @ + 1] /\ store' = Fresh /\ Log([op |-> "retrain", weights |-> cfg'.weights])
           /\ n' = n + 1 /\ UNCHANGED <<kind, stage>>
Finish == /\ stage = "run" /\ n = MaxOps /\ stage' = "done" /\ UNCHANGED <<kind, cfg, store, n, log>>

Init == /\ kind \in {"gru", "rc"}
        /\ \E pool \in (IF Sim THEN 1..256 ELSE {1}) :
             cfg = [layers |-> IF Sim THEN RandomElement(1..3) ELSE 1, hid |-> IF Sim THEN RandomElement({1, 2, 4}) ELSE 1,
                    nin |-> IF Sim THEN RandomElement(1..3) ELSE 1, nout |-> IF Sim THEN RandomElement(1..3) ELSE 1,
                    bias |-> IF Sim THEN RandomElement(1..4) # 1 ELSE TRUE,
                    law |-> IF Sim THEN RandomElement({"elastic", "von_mises", "von_mises_mixed", "drucker_prager"}) ELSE "elastic",
                    mode |-> IF Sim THEN RandomElement({"standard", "vmap"}) ELSE "standard",
                    dim |-> IF Sim THEN RandomElement({2, 3}) ELSE 2,
                    states |-> IF Sim THEN RandomElement(SUBSET {"acc_p_strain", "e_strain_mf", "strain_mf"}) ELSE {}, weights |-> pool]
        /\ store = Fresh /\ n = 0 /\ stage = "run" /\ log = <<>>
Next == Feed \/ Plain \/ Respond \/ Retrain \/ Finish
Spec == Init /\ [][Next]_vars

\* design: carrying the memory is the same as starting over with the whole history
Resumable == \A i \in 1..Len(store) : store[i].val = Fold(Start(store[i].init), store[i].hist)
Causal == \A i, j \in 1..Len(store) : (store[i].init = store[j].init /\ store[i].hist = store[j].hist) => store[i].val = store[j].val
Kept == \A i \in 1..3 : store[i] = Fresh[i]
Emit == stage = "done" => PrintT("@@" \o ToJson([kind |-> kind, cfg |-> cfg, log |-> log]))
===============================================================================
