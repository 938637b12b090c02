-------------------------------- MODULE Views ---------------------------------
(* What a merge method is given while a recipe is evaluated: the key it computes, the cache of its node, and its dictionary
   parameters as views that evaluate the argument for whatever key is read.

   A program is a graph of nodes: leaves with missing keys and methods that read their arguments in different ways. Evaluation is a
   machine with a stack of frames; a frame is the method of a node computing one key, with the reads it still has to make.
   Key 0 stands for a key no config has. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS NL, NN, NK, Kinds, NCaches, NMerges, MissOneIn

Keys == 1..NK
Asked == 0..NK
Leaves == 1..NL
NextKey(k) == IF k = NK THEN 1 ELSE k + 1
Two == {"eager2", "mixed"}
Lazy == {"own", "next", "sum", "len", "has", "get", "gone", "twice"}

VARIABLES present, prog, pc, stack, merges, outs, seen
vars == <<present, prog, pc, stack, merges, outs, seen>>
Nodes == 1..(NL + Len(prog))
P(n) == prog[n - NL]

Init == /\ present = <<>> /\ prog = <<>> /\ pc = "leaves" /\ stack = <<>> /\ merges = <<>> /\ outs = <<>> /\ seen = {}

Run == UNCHANGED <<stack, merges, outs, seen>>
Leaf == /\ pc = "leaves" /\ Len(present) < NL
        /\ \E s \in SUBSET Keys, more \in 0..MissOneIn : present' = Append(present, IF more = 0 THEN s ELSE Keys)
        /\ pc' = (IF Len(present) + 1 = NL THEN "nodes" ELSE "leaves") /\ UNCHANGED prog /\ Run
Node == /\ pc = "nodes" /\ Len(prog) < NN
        /\ \E kind \in Kinds, a \in 1..(NL + Len(prog)), b \in 1..(NL + Len(prog)), c \in 0..NCaches, x \in BOOLEAN :
             /\ (kind \notin Two => b = 1)
             /\ (Len(prog) > 0 => (a = NL + Len(prog) \/ (kind \in Two /\ b = NL + Len(prog))))       \* every node is used
             /\ (~x => c = 0 /\ kind \in {"eager", "eager2", "len"})
             /\ prog' = Append(prog, [kind |-> kind, args |-> IF kind \in Two THEN <<a, b>> ELSE <<a>>, cache |-> c, context |-> x])
        /\ pc' = (IF Len(prog) + 1 = NN THEN "merge" ELSE "nodes") /\ UNCHANGED present /\ Run

(* --- the machine ---------------------------------------------------------------------------------------------------------------- *)
Missing == <<>>
LeafValue(n, k) == IF k \in present[n] THEN <<10 * n + k>> ELSE Missing
Read(j, k, tolerant) == [arg |-> j, key |-> k, tolerant |-> tolerant]
\* "eager": parameters are single values, computed before the method is called; the others read while they run
Reads(n, k) ==
  LET kind == P(n).kind IN
  CASE kind = "eager" -> <<Read(1, k, FALSE)>>
    [] kind = "eager2" -> <<Read(1, k, FALSE), Read(2, k, FALSE)>>
    [] kind = "mixed" -> <<Read(1, k, FALSE), Read(2, NextKey(k), FALSE)>>         \* a value, then the next key of a dictionary
    [] kind = "own" -> <<Read(1, k, FALSE)>>
    [] kind = "next" -> <<Read(1, NextKey(k), FALSE)>>
    [] kind = "twice" -> <<Read(1, k, FALSE), Read(1, k, FALSE)>>
    [] kind \in {"has", "get"} -> <<Read(1, k, TRUE)>>
    [] kind = "sum" -> [i \in 1..NK |-> Read(1, i, TRUE)]
    [] kind = "gone" -> <<Read(1, 0, TRUE), Read(1, k, FALSE)>>
    [] kind = "len" -> <<>>
RECURSIVE Sum(_)
Sum(vs) == IF vs = <<>> THEN 0 ELSE (IF Head(vs) = Missing THEN 0 ELSE Head(vs)[1]) + Sum(Tail(vs))
Combine(n, vs) ==
  LET kind == P(n).kind IN
  CASE kind = "eager" -> 2 * vs[1][1]
    [] kind \in {"eager2", "mixed"} -> vs[1][1] + 2 * vs[2][1]
    [] kind \in {"own", "next"} -> vs[1][1] + 1
    [] kind \in {"twice", "sum", "gone"} -> Sum(vs)
    [] kind = "has" -> (IF vs[1] = Missing THEN 0 ELSE 1)
    [] kind = "get" -> (IF vs[1] = Missing THEN -7 ELSE vs[1][1])
    [] kind = "len" -> NK
\* whether the body of the method runs before read number i (eager arguments come first)
BodyAfter(n) == CASE P(n).kind = "eager" -> 1 [] P(n).kind = "eager2" -> 2 [] P(n).kind = "mixed" -> 1 [] OTHER -> 0

Frame(n, k) == [n |-> n, k |-> k, vals |-> <<>>]
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Begin(root, m) ==       \* a merge of the node `root`
  /\ merges' = Append(merges, root) /\ outs' = Append(outs, <<>>)
  /\ pc' = "keys"
StartMerge == /\ pc = "merge" /\ Len(merges) < NMerges
              /\ \E root \in {NL + Len(prog)} \cup (IF merges = <<>> THEN {} ELSE (NL + 1)..(NL + Len(prog))) : Begin(root, 0)
              /\ UNCHANGED <<present, prog, stack, seen>>
Root == merges[Len(merges)]
Out == outs[Len(outs)]
StartKey == /\ pc = "keys" /\ Len(Out) < NK /\ stack = <<>>
            /\ stack' = <<Frame(Root, Len(Out) + 1)>> /\ pc' = "run"
            /\ seen' = IF BodyAfter(Root) = 0 /\ P(Root).context THEN seen \cup {[merge |-> Len(merges), n |-> Root, k |-> Len(Out) + 1]} ELSE seen
            /\ UNCHANGED <<present, prog, merges, outs>>
EndMerge == /\ pc = "keys" /\ Len(Out) = NK /\ pc' = (IF Len(merges) = NMerges THEN "done" ELSE "merge")
            /\ UNCHANGED <<present, prog, stack, merges, outs, seen>>
Todo == Reads(Top.n, Top.k)
Failed(f) == LET r == Reads(f.n, f.k) IN \E i \in DOMAIN f.vals : f.vals[i] = Missing /\ ~r[i].tolerant
\* the body runs as soon as all values it is called with are there
Bodied(f) == P(f.n).context /\ Len(f.vals) = BodyAfter(f.n) /\ \A i \in 1..Len(f.vals) : f.vals[i] # Missing
Note(f) == IF Bodied(f) THEN {[merge |-> Len(merges), n |-> f.n, k |-> f.k]} ELSE {}
Got(v) == LET f == [Top EXCEPT !.vals = Append(@, v)] IN stack' = Append(Pop, f) /\ seen' = seen \cup Note(f)
Step == /\ pc = "run" /\ Len(Top.vals) < Len(Todo)
        /\ ~(Failed(Top) /\ Len(Top.vals) >= BodyAfter(Top.n))       \* values that are passed are all computed, whichever is missing
        /\ LET r == Todo[Len(Top.vals) + 1]
               a == P(Top.n).args[r.arg]
           IN IF a \in Leaves THEN Got(LeafValue(a, r.key))
              ELSE stack' = Append(stack, Frame(a, r.key)) /\ seen' = seen \cup Note(Frame(a, r.key))
        /\ UNCHANGED <<present, prog, pc, merges, outs>>
Result == IF Failed(Top) THEN Missing ELSE <<Combine(Top.n, Top.vals)>>
Finished == pc = "run" /\ (Len(Top.vals) = Len(Todo) \/ (Failed(Top) /\ Len(Top.vals) >= BodyAfter(Top.n)))
Return == /\ Finished /\ Len(stack) > 1
          /\ LET f == stack[Len(stack) - 1]
                 g == [f EXCEPT !.vals = Append(@, Result)]
             IN stack' = Append(SubSeq(stack, 1, Len(stack) - 2), g) /\ seen' = seen \cup Note(g)
          /\ UNCHANGED <<present, prog, pc, merges, outs>>
Store == /\ Finished /\ Len(stack) = 1
         /\ outs' = [outs EXCEPT ![Len(outs)] = Append(@, Result)]
         /\ stack' = <<>> /\ pc' = "keys" /\ UNCHANGED <<present, prog, merges, seen>>
Next == Leaf \/ Node \/ StartMerge \/ StartKey \/ EndMerge \/ Step \/ Return \/ Store
Spec == Init /\ [][Next]_vars

(* --- properties ------------------------------------------------------------------------------------------------------------------ *)
\* what a node gives for a key, without a machine
RECURSIVE Value(_, _)
Value(n, k) == IF n \in Leaves THEN LeafValue(n, k)
               ELSE LET r == Reads(n, k)
                        vs == [i \in DOMAIN r |-> Value(P(n).args[r[i].arg], r[i].key)]
                    IN IF \E i \in DOMAIN r : vs[i] = Missing /\ ~r[i].tolerant THEN Missing ELSE <<Combine(n, vs)>>
MachineGivesValues == \A m \in DOMAIN outs : \A k \in DOMAIN outs[m] : outs[m][k] = Value(merges[m], k)
\* the calls a present value cannot do without
RECURSIVE Needed(_, _)
Needed(n, k) == IF n \in Leaves \/ Value(n, k) = Missing THEN {}
                ELSE {<<n, k>>} \cup UNION {Needed(P(n).args[r.arg], r.key) : r \in {Reads(n, k)[i] : i \in DOMAIN Reads(n, k)}}
NeededBy(m) == UNION {Needed(merges[m], k) : k \in Keys}
NeededAreSeen == pc = "done" => \A m \in DOMAIN merges : \A c \in NeededBy(m) : P(c[1]).context => [merge |-> m, n |-> c[1], k |-> c[2]] \in seen
EveryMergeAlike == pc = "done" => \A i, j \in DOMAIN merges : merges[i] = merges[j] => outs[i] = outs[j]
SeenInPrograms == \A e \in seen : e.n \in Nodes \ Leaves /\ e.k \in Asked

Emit == pc = "done" => CSVWrite("%1$s", <<ToJson([nk |-> NK, present |-> present, prog |-> prog, merges |-> merges, outs |-> outs, may |-> seen,
          must |-> UNION {{[merge |-> m, n |-> c[1], k |-> c[2]] : c \in {x \in NeededBy(m) : P(x[1]).context}} : m \in DOMAIN merges}])>>, IOEnv.OUT)
=============================================================================
