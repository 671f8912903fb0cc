-------------------------------- MODULE Deck ---------------------------------
(* Input files of the external simulator, its runs and its results (C32).      *)
(* Kind = "run": a project of one patch. Decks 1, 2, ... (files) each hold the  *)
(*   materials and options they were written with; output[k] is the run that     *)
(*   produced what lies in the output folder of deck k (0 = no folder).          *)
(*     write   new deck, or deck 1 rewritten when the user allows overwriting    *)
(*     run     the simulator completes, fails, or leaves no report / no folder   *)
(*     read    results of a deck, in the order of the time steps                 *)
(*   A material is the hardening table the simulator interpolates: yield stress   *)
(*   of the law at np equally spaced accumulated plastic strains 0..2, an integer *)
(*   in units of 1/(np-1).                                                       *)
(* Kind = "load": load factor history read from a deck.                          *)
(* Kind = "support": supports of a tensile specimen, from node positions only.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, Kind, MaxOps, MaxN, MaxPh

VARIABLES P, decks, output, runs, ops, done
vars == <<P, decks, output, runs, ops, done>>

Choice(S) == IF Sim THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
Abs(x) == IF x < 0 THEN -x ELSE x
Models == {"ELASTIC", "VON_MISES", "DRUCKER_PRAGER", "LOU"}
Tuple8(lo, hi) == {TLCEval([i \in 1..8 |-> IF Sim THEN RandomElement(lo..hi) ELSE lo])}

\* yield stress times np-1 at point i of the table, law through (0,h1), (1,h2), (2,h3)
Law(h, num, den) == IF num <= den THEN h[1] * den + (h[2] - h[1]) * num
                    ELSE h[2] * den + (h[3] - h[2]) * (num - den)
Table(m) == IF m.model = "ELASTIC" THEN <<>>
            ELSE TLCEval([i \in 1..m.np |-> Law(m.h, 2 * (i - 1), m.np - 1)])

Material == \* one random material
  {[model |-> a, np |-> n, kind |-> l, h |-> (IF l = "linear" THEN <<h1, h1 + d, h1 + 2 * d>> ELSE <<h1, h1 + d, h1 + e>>), par |-> q] :
     a \in Choice(Models), n \in Choice(2..MaxN), l \in Choice({"linear", "piecewise"}), h1 \in Choice(1..9), d \in Choice(0..5),
     e \in Choice(0..9), q \in Tuple8(-8, 8)}
OneMat == CHOOSE x \in Material : TRUE

\* ---------------------------------------------------------------- Kind = "run"
Phases == 1..MaxPh
InitRun == \E pool \in (IF Sim THEN 1..256 ELSE {1}) :
           \E dim \in Choice({2, 3}), el \in Choice(1..2), ow \in Choice(BOOLEAN) :
           /\ P = [dim |-> dim, el |-> el]
           /\ decks = <<>> /\ output = <<>> /\ runs = 0 /\ ops = <<>> /\ done = FALSE
           /\ ow \in BOOLEAN
Log(r) == ops' = Append(ops, r)
Ne == IF P.dim = 2 THEN 2 * P.el ELSE 2 * P.el
\* a deck: phase of each element, material of each phase that occurs, options the user sets
Write == \E ow \in Choice(BOOLEAN), bad \in Choice({"", "", "phase", "key", "model"}), f \in Choice(1..4), sv \in Choice(BOOLEAN),
            p0 \in Choice(Phases), m1 \in Choice(Material), m2 \in Choice(Material), m3 \in Choice(Material), z \in Choice(1..6) :
         \E ph \in {TLCEval([e \in 1..Ne |-> IF Sim THEN RandomElement(Phases) ELSE p0])} :
         LET used == {ph[e] : e \in 1..Ne}
             ms == <<m1, m2, m3>>
             fail == z = 1 /\ bad # ""
             new == IF decks = <<>> \/ ow THEN 1 ELSE Len(decks) + 1
             d == [ph |-> ph, used |-> used, mats |-> ms, tab |-> TLCEval([i \in 1..3 |-> Table(ms[i])]), fm |-> f]
         IN /\ decks' = IF fail THEN decks ELSE IF new > Len(decks) THEN Append(decks, d) ELSE [decks EXCEPT ![new] = d]
            /\ output' = IF fail \/ new <= Len(decks) THEN output ELSE Append(output, 0)
            /\ Log([op |-> "write", ow |-> ow, bad |-> (IF fail THEN bad ELSE ""), at |-> new, deck |-> d, saveload |-> sv])
            /\ UNCHANGED <<P, runs>>
Outcome == {"ok", "ok2", "fail", "noreport", "nofolder"}
Run == \E k \in Choice(1..Len(decks)), o \in Choice(Outcome), n \in Choice(1..4), s0 \in Choice({0, 1, 8}), gap \in Choice({1, 9, 95}) :
         /\ runs' = runs + 1
         /\ output' = [output EXCEPT ![k] = IF o = "nofolder" THEN 0 ELSE runs + 1]
         /\ Log([op |-> "run", k |-> k, o |-> o, run |-> runs + 1, raises |-> (o \in {"noreport", "nofolder"}),
                 success |-> (o \in {"ok", "ok2"}), steps |-> TLCEval([i \in 1..n |-> s0 + (i - 1) * gap])])
         /\ UNCHANGED <<P, decks>>
Read == \E k \in Choice(1..Len(decks)), nd \in Choice(BOOLEAN), gd \in Choice(BOOLEAN) :
         /\ Log([op |-> "read", k |-> k, run |-> output[k], node |-> nd, glob |-> gd])
         /\ UNCHANGED <<P, decks, output, runs>>
NextRun == /\ ~done
           /\ \/ Len(ops) < MaxOps /\ (Write \/ (decks # <<>> /\ (Run \/ Read))) /\ done' = (Len(ops') = MaxOps)

\* --------------------------------------------------------------- Kind = "load"
InitLoad == \E pool \in (IF Sim THEN 1..256 ELSE {1}) :
            \E mode \in Choice({"number", "list3", "list4"}), n \in Choice(1..MaxN), end \in Choice({"blank", "star", "end"}) :
            \E d \in {TLCEval([i \in 1..n |-> IF mode = "number" THEN 1 ELSE IF Sim THEN RandomElement(-6..6) ELSE i - 2])} :
            /\ P = [mode |-> mode, n |-> n, end |-> end, d |-> d]
            /\ decks = <<>> /\ output = <<0>> /\ runs = 0 /\ ops = <<>> /\ done = FALSE
\* increment by increment: output = total load factor after each of them
NextLoad == /\ ~done
            /\ output' = Append(output, output[Len(output)] + P.d[Len(output)])
            /\ runs' = runs + Abs(P.d[Len(output)])
            /\ done' = (Len(output') = P.n + 1)
            /\ UNCHANGED <<P, decks, ops>>

\* ------------------------------------------------------------ Kind = "support"
\* node: position class in each direction, 0 = at the origin plane, 1 = inside, 2 = at the top plane (y only)
InitSup == \E pool \in (IF Sim THEN 1..256 ELSE {1}) :
           \E n \in Choice(1..MaxN), top \in Choice({1, 4, 12}), u \in Choice({-3, -1, 0, 1, 2, 40}), g \in Choice(BOOLEAN) :
           \E pos \in {TLCEval([i \in 1..n |-> IF Sim THEN <<RandomElement(0..1), RandomElement(0..2), RandomElement(0..1)>> ELSE <<i % 2, i % 3, (i \div 2) % 2>>])} :
           /\ P = [n |-> n, top |-> top, u |-> u, group |-> g, pos |-> pos]
           /\ decks = <<>> /\ output = <<>> /\ runs = 0 /\ ops = <<>> /\ done = FALSE
Code(q) == <<IF q[1] = 0 THEN 1 ELSE 0, IF q[2] # 1 THEN 1 ELSE 0, IF q[3] = 0 THEN 1 ELSE 0>>
\* node by node: decks = constrained nodes, output = nodes that are pulled
NextSup == /\ ~done
           /\ runs' = runs + 1
           /\ \E q \in {P.pos[runs + 1]} :
              /\ decks' = IF Code(q) = <<0, 0, 0>> THEN decks
                          ELSE Append(decks, [node |-> runs + 1, code |-> Code(q), y |-> IF q[2] = 2 THEN P.u ELSE 0])
              /\ output' = IF q[2] = 2 /\ P.u # 0 THEN Append(output, runs + 1) ELSE output
           /\ done' = (runs + 1 = P.n)
           /\ UNCHANGED <<P, ops>>

Init == CASE Kind = "run" -> InitRun [] Kind = "load" -> InitLoad [] OTHER -> InitSup
Next == CASE Kind = "run" -> NextRun [] Kind = "load" -> NextLoad [] OTHER -> NextSup
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
\* every output folder belongs to a run of its own deck; decks are never lost
Owned == Kind = "run" => /\ Len(output) = Len(decks)
                         /\ \A i, j \in 1..Len(output) : (i # j /\ output[i] # 0) => output[i] # output[j]
\* a hardening law that does not soften gives a table that does not soften, from its initial value on
TableOK == Kind = "run" => \A i \in 1..Len(decks) : \A j \in 1..3 :
             LET m == decks[i].mats[j] T == decks[i].tab[j] IN
             Len(T) > 0 => /\ T[1] = m.h[1] * (m.np - 1) /\ T[m.np] = m.h[3] * (m.np - 1)
                           /\ (m.kind = "linear") => \A k \in 2..m.np : T[k] - T[k - 1] = T[2] - T[1]
\* load factors never exceed the accumulated load
LoadOK == Kind = "load" => \A i \in 1..Len(output) : Abs(output[i]) <= runs
\* what is pulled is held
SupOK == Kind = "support" => \A i \in 1..Len(output) : \E j \in 1..Len(decks) : decks[j].node = output[i] /\ decks[j].code[2] = 1
Emit == done => PrintT("@@" \o ToJson([kind |-> Kind, P |-> P, ops |-> ops,
                 out |-> (IF Kind = "run" THEN <<>> ELSE output), acc |-> runs, dbc |-> (IF Kind = "support" THEN decks ELSE <<>>)]))
=============================================================================
