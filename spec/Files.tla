------------------------------- MODULE Files ----------------------------------
(* Names of output folders and files (C20). A name is <<base, s1, .., sk>>:    *)
(* the base followed by numeric suffixes; files and folders share the names    *)
(* of a directory only when they carry no extension (ext = 0).                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Bases, Exts, MaxOps, Sim
Choice(S) == IF Sim THEN {RandomElement(S)} ELSE S

VARIABLES tree, top, hist, n, done
vars == <<tree, top, hist, n, done>>
Init == tree = {} /\ top = 0 /\ hist = <<>> /\ n = 0 /\ done = FALSE

\* entry: [b, s, x, k, v]: base, suffixes, extension (0 = none), kind, version of its content
Taken(T, b, s, x) == \E e \in T : e.b = b /\ e.s = s /\ e.x = x
At(T, b, s, x) == CHOOSE e \in T : e.b = b /\ e.s = s /\ e.x = x
IsDir(T, b, s, x) == Taken(T, b, s, x) /\ At(T, b, s, x).k = "dir"
Idx == 1..(MaxOps + 2)
Free(T, b, s, x) == LET F == {i \in Idx : ~Taken(T, b, Append(s, i), x)}
                    IN Append(s, CHOOSE i \in F : \A j \in F : i <= j)

\* requested names: the base itself or with one (or two) suffixes
Suffixes == {<<>>, <<1>>, <<2>>, <<1, 1>>}
Names == Bases \X Suffixes

Log(r) == hist' = Append(hist, r @@ [tree |-> tree']) /\ n' = n + 1 /\ done' = FALSE

\* folders are requested without extension
MakeDir == \E q \in Choice(Names), x \in {0}, ow \in Choice({TRUE, FALSE, FALSE}) :
  LET b == q[1]
      s == q[2]
      isd == IsDir(tree, b, s, x)
      blocked == Taken(tree, b, s, x) /\ ~isd
      t == IF isd /\ ~ow THEN Free(tree, b, s, x) ELSE s
      rest == {e \in tree : ~(e.b = b /\ e.s = t /\ e.x = x)}
  IN /\ top' = top + 1
     /\ tree' = IF blocked THEN tree
                ELSE rest \cup {[b |-> b, s |-> t, x |-> x, k |-> "dir", v |-> top + 1]}
     /\ Log([op |-> "mkdir", b |-> b, s |-> s, x |-> x, ow |-> ow, err |-> blocked,
             r |-> t, v |-> top + 1])

NewFile == \E q \in Choice(Names), x \in Choice(Exts) :
  LET b == q[1]
      s == q[2]
      t == IF Taken(tree, b, s, x) THEN Free(tree, b, s, x) ELSE s
  IN /\ top' = top + 1
     /\ tree' = tree \cup {[b |-> b, s |-> t, x |-> x, k |-> "file", v |-> top + 1]}
     /\ Log([op |-> "file", b |-> b, s |-> s, x |-> x, ow |-> FALSE, err |-> FALSE,
             r |-> t, v |-> top + 1])

Delete == /\ tree # {}
          /\ \E e \in Choice(tree) :
               /\ tree' = tree \ {e} /\ UNCHANGED top
               /\ Log([op |-> "delete", b |-> e.b, s |-> e.s, x |-> e.x])

\* pattern [b, d, x]: base b (0 = any), d suffixes (9 = any), extension x (9 = any)
Matches(p, e) == /\ e.k = "file" /\ (p.b = 0 \/ p.b = e.b) /\ (p.d = 9 \/ p.d = Len(e.s))
                 /\ (p.x = 9 \/ p.x = e.x)
Hits(T, ps) ==
  LET I == {i \in 1..Len(ps) : \E e \in T : Matches(ps[i], e)}
  IN IF I = {} THEN {}
     ELSE LET i == CHOOSE j \in I : \A k \in I : j <= k IN {e \in T : Matches(ps[i], e)}
Patterns == [b : Bases \cup {0}, d : {0, 1, 2, 9}, x : Exts \cup {9}]
Find == \E p1 \in Choice(Patterns), p2 \in Choice(Patterns), two \in Choice(BOOLEAN) :
          LET ps == IF two THEN <<p1, p2>> ELSE <<p1>> IN
          /\ UNCHANGED <<tree, top>>
          /\ Log([op |-> "find", ps |-> ps, hits |-> Hits(tree, ps)])

Finish == n >= MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<tree, top, hist, n>>
Next == (n < MaxOps /\ (MakeDir \/ MakeDir \/ NewFile \/ Delete \/ Find)) \/ Finish
Spec == Init /\ [][Next]_vars

Unique == \A e, f \in tree : (e.b = f.b /\ e.s = f.s /\ e.x = f.x) => e = f
\* creations keep every entry, except the one named in an overwrite request
Kept == [][hist' # hist => LET h == hist'[Len(hist')] IN
            CASE h.op = "file" -> tree \subseteq tree'
              [] h.op = "mkdir" -> \A e \in tree : e \in tree' \/
                    (h.ow /\ e.b = h.b /\ e.s = h.s /\ e.x = h.x /\ e.k = "dir")
              [] h.op = "find" -> tree = tree'
              [] OTHER -> TRUE]_vars
\* a new entry never takes the name of an existing one unless overwriting
Fresh == [][hist' # hist => LET h == hist'[Len(hist')] IN
             (h.op \in {"file", "mkdir"} /\ ~h.err /\ ~h.ow) => ~Taken(tree, h.b, h.r, h.x)]_vars
View == <<tree, n, done>>
Emit == done => PrintT("@@" \o ToJson(hist))
===============================================================================
