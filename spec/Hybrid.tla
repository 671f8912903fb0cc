-------------------------------- MODULE Hybrid ---------------------------------
(* Hybrid models (C21): parts placed in channels and layers; the model computes *)
(* a term over its parts. Parts are uninterpreted functions; the term says what *)
(* is applied to what.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, MaxParts, MaxUse
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S
Names == <<"p1", "p2", "p3", "p4", "p5">>
F == 6                                      \* features of the model

VARIABLES parts, kind, tree, stage, out, uses, mem, log
vars == <<parts, kind, tree, stage, out, uses, mem, log>>
\* parts: registered parts in order of registration
\*  [name, chan, pos, res, type, in, out, nin, nout]
\* mem: what the saved initialization file would rebuild

\* the part at the end of a channel (positions are compared as numbers)
Chan(ps, c) == {i \in 1..Len(ps) : ps[i].chan = c}
SortedBy(ps, S) == LET RECURSIVE G(_)
                       G(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE i \in T : \A j \in T : ps[i].pos <= ps[j].pos IN <<m>> \o G(T \ {m})
                   IN G(S)
Chans(ps) == {ps[i].chan : i \in 1..Len(ps)}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE i \in S : \A j \in S : i <= j IN <<m>> \o Ascending(S \ {m})
Dup(ps) == \E i, j \in 1..Len(ps) : i # j /\ ps[i].chan = ps[j].chan /\ ps[i].pos = ps[j].pos

\* terms
In == [op |-> "in"]
Feed(p, t) == LET u == IF p.res THEN [op |-> "cat", a |-> t, b |-> In] ELSE t
                  v == IF p.nin THEN [op |-> "normalize", part |-> p.name, a |-> u] ELSE u
                  w == [op |-> "apply", part |-> p.name, a |-> v]
              IN IF p.nout THEN [op |-> "denormalize", part |-> p.name, a |-> w] ELSE w
ChannelTerm(ps, c) == LET s == SortedBy(ps, Chan(ps, c))
                          RECURSIVE G(_)
                          G(k) == IF k = 0 THEN In ELSE Feed(ps[s[k]], G(k - 1))
                      IN G(Len(s))
Term(ps, kd) == LET cs == Ascending(Chans(ps))
                    ts == [i \in 1..Len(cs) |-> ChannelTerm(ps, cs[i])]
                IN IF kd = "identity" THEN ts[1] ELSE [op |-> "sum", args |-> ts]

-------------------------------------------------------------------------------
(* Layout: channels are filled from their first layer to their last, the parts *)
(* are then registered in any order.                                            *)
Width(c) == LET S == Chan(parts, c) IN IF S = {} THEN F ELSE parts[CHOOSE i \in S : \A j \in S : parts[i].pos >= parts[j].pos].out
LastPos(c) == LET S == Chan(parts, c) IN IF S = {} THEN -1 ELSE parts[CHOOSE i \in S : \A j \in S : parts[i].pos >= parts[j].pos].pos
Types(w) == IF Sim /\ w = F + 1 THEN {"voldev", "gru"} ELSE IF Sim /\ w = 2 * F THEN {"elastic", "gru"} ELSE
            {"gru", "poly"} \cup (IF w \in {F, 2 * F} THEN {"elastic"} ELSE {}) \cup (IF w = F + 1 THEN {"voldev"} ELSE {})
            \cup (IF w = F THEN {"rc"} ELSE {})
Outs(ty, w) == CASE ty = "gru" -> {F, F + 1} [] ty = "poly" -> {w} [] OTHER -> {F}
Scaled(ty) == ty \in {"gru", "poly"}

Log(e) == log' = Append(log, e)
Place == /\ stage = "layout" /\ Len(parts) < MaxParts
         /\ \E c \in Choice(IF Sim THEN {0, 2, 10} ELSE {0, 10}) : \E res \in Choice(IF Sim /\ Width(c) # F THEN {FALSE} ELSE BOOLEAN) :
            LET w == Width(c) + IF res THEN F ELSE 0 IN
            \E ty \in Choice(Types(w)) : \E o \in Choice(Outs(ty, w)) : \E step \in Choice(IF Sim THEN {1, 3, 9} ELSE {1}) :
            \E nin \in Choice(IF Scaled(ty) THEN BOOLEAN ELSE {FALSE}) : \E nout \in Choice(IF Scaled(ty) THEN BOOLEAN ELSE {FALSE}) :
              parts' = Append(parts, [name |-> Names[Len(parts) + 1], chan |-> c, pos |-> LastPos(c) + step, res |-> res, type |-> ty,
                                      in |-> w, out |-> o, nin |-> nin, nout |-> nout])
         /\ UNCHANGED <<kind, tree, stage, out, uses, mem, log>>
\* all channels must end with the features of the model
Wide == {c \in Chans(parts) : Width(c) # F}
CanBuild(kd) == parts # <<>> /\ (kd = "additive" => Wide = {}) /\ (kd = "identity" => Ascending(Chans(parts))[1] \notin Wide)
\* registration in another order: rotate or reverse
Turn(s, k, r) == LET t == [i \in 1..Len(s) |-> s[((i - 1 + k) % Len(s)) + 1]] IN IF r THEN [i \in 1..Len(s) |-> t[Len(s) + 1 - i]] ELSE t
Build == /\ stage = "layout" /\ (Len(parts) >= MaxParts - 2 \/ ~Sim)
         /\ \E kd \in Choice({"identity", "additive"}) : \E k \in Choice(IF Sim THEN 0..4 ELSE 0..1) : \E r \in Choice(IF Sim THEN BOOLEAN ELSE {FALSE}) : \E o \in Choice(BOOLEAN) :
            /\ CanBuild(kd) /\ kind' = kd /\ parts' = Turn(parts, k, r) /\ out' = o
         /\ tree' = Term(parts', kind') /\ mem' = parts' /\ stage' = "use"
         /\ Log([op |-> "build", kind |-> kind', parts |-> parts', out |-> out', term |-> tree'])
         /\ UNCHANGED uses
\* two parts at one place: rejected
Clash == /\ Sim => RandomElement(1..5) = uses + 1
         /\ stage = "layout" /\ Len(parts) >= 2 /\ Len(parts) >= MaxParts - 2
         /\ \E i \in Choice(1..Len(parts)) : \E j \in Choice(1..Len(parts)) :
            /\ i # j /\ parts' = [parts EXCEPT ![i].chan = parts[j].chan, ![i].pos = parts[j].pos]
         /\ Log([op |-> "reject", parts |-> parts']) /\ stage' = "done" /\ UNCHANGED <<kind, tree, out, uses, mem>>
Use(o, e) == /\ stage = "use" /\ uses < MaxUse /\ uses' = uses + 1 /\ Log([op |-> o] @@ e)
Forward == /\ \E shape \in Choice({"path", "batch", "single"}) : \E x \in Choice(1..4) : Use("forward", [shape |-> shape, x |-> x])
           /\ UNCHANGED <<parts, kind, tree, stage, out, mem>>
\* the model rebuilt from its files computes the same term
Reload == /\ Use("reload", [n |-> uses]) /\ UNCHANGED <<parts, kind, tree, stage, out, mem>>
Finish == stage = "use" /\ uses = MaxUse /\ stage' = "done" /\ UNCHANGED <<parts, kind, tree, out, uses, mem, log>>

Init == /\ parts = <<>> /\ kind = "identity" /\ tree = In /\ stage = "layout" /\ out = FALSE /\ uses = 0 /\ mem = <<>> /\ log = <<>>
Next == Place \/ Build \/ Clash \/ Forward \/ Reload \/ Finish
Spec == Init /\ [][Next]_vars

\* design: the term does not depend on the order of registration, every used part appears once
RECURSIVE Parts(_)
Parts(t) == CASE t.op = "in" -> <<>> [] t.op \in {"normalize", "denormalize"} -> Parts(t.a) [] t.op = "apply" -> <<t.part>> \o Parts(t.a)
             [] t.op = "cat" -> Parts(t.a)
             [] OTHER -> LET RECURSIVE G(_) G(k) == IF k = 0 THEN <<>> ELSE Parts(t.args[k]) \o G(k - 1) IN G(Len(t.args))
Once == stage = "use" => LET s == Parts(tree) IN Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
All == (stage = "use" /\ kind = "additive") => Len(Parts(tree)) = Len(parts)
Unordered == stage = "use" => \A k \in 0..2 : \A r \in BOOLEAN : Term(Turn(parts, k, r), kind) = tree
NoClash == stage = "layout" => ~Dup(parts)
Emit == stage = "done" => PrintT("@@" \o ToJson([log |-> log]))
===============================================================================
