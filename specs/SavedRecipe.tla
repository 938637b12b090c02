---------------------------- MODULE SavedRecipe ----------------------------
(* The recipe stored in a saved model: programs of RecipeDag whose inputs are files or tensors in memory, with or without a config of
   their own, used several times with different options. A use determines the configs of the inputs, wraps the recipe into what the
   options ask for, writes the recipe down instruction by instruction (equal instructions once) and forgets the configs. *)
EXTENDS RecipeDag

CONSTANTS MaxUses, Kinds, Configs,
          What       \* "given": the recipe as the user built it is written; "executed": a design that writes what is executed

VARIABLES kind, cfg, found, phase, use, todo, lines, stack, uses
svars == <<vars, kind, cfg, found, phase, use, todo, lines, stack, uses>>
NoUse == [op |-> "", fb |-> 0]

SInit == /\ Init /\ kind = <<>> /\ cfg = <<>> /\ found = <<>> /\ phase = "inputs" /\ use = NoUse /\ todo = <<>> /\ lines = <<>> /\ stack = <<>> /\ uses = <<>>
Building == pc # "final" /\ Next /\ UNCHANGED <<kind, cfg, found, phase, use, todo, lines, stack, uses>>
Describe == /\ pc = "final" /\ phase = "inputs" /\ Len(kind) < NI
            /\ \E k \in Kinds, c \in Configs : kind' = Append(kind, k) /\ cfg' = Append(cfg, c) /\ found' = Append(found, c)
            /\ UNCHANGED <<vars, phase, use, todo, lines, stack, uses>>
Described == pc = "final" /\ phase = "inputs" /\ Len(kind) = NI /\ phase' = "idle" /\ UNCHANGED <<vars, kind, cfg, found, use, todo, lines, stack, uses>>

RECURSIVE Reach(_)
Reach(n) == {n} \cup UNION {Reach(m) : m \in {prog[n].args[j] : j \in 1..Len(prog[n].args)} \ {0}}
Leaves == Reach(Root) \cap 1..NI
Writable(n) == Reach(n) \cap {i \in 1..NI : kind[i] = "tensors"} = {}

\* what the executed recipe consists of: the program, and the fallback of this use
Begin == /\ phase = "idle" /\ Len(uses) < MaxUses
         /\ \E o \in {"save", "save", "merge", "fail", "text"}, f \in 0..NI :
              /\ (f # 0 => Space(f) = Space(Root)) /\ (o = "text" => f = 0)
              /\ use' = [op |-> o, fb |-> f]
              /\ todo' = (IF o = "text" THEN {} ELSE Leaves \cup ({f} \ {0}))
         /\ phase' = "load" /\ lines' = <<>> /\ UNCHANGED <<vars, kind, cfg, found, stack, uses>>
Load == /\ phase = "load"
        /\ IF todo = {} THEN /\ phase' = (IF use.op \in {"save", "text"} THEN "write" ELSE "end")
                             /\ stack' = (IF use.op \in {"save", "text"} THEN <<[n |-> Root, j |-> 1, refs |-> <<>>]>> ELSE <<>>) /\ UNCHANGED <<found, todo>>
           ELSE LET i == CHOOSE i \in todo : \A j \in todo : i <= j IN
                found' = [found EXCEPT ![i] = "own"] /\ todo' = todo \ {i} /\ UNCHANGED <<phase, stack>>
        /\ UNCHANGED <<vars, kind, cfg, use, lines, uses>>

\* writing: depth first, arguments before the instruction that uses them
Index(l) == IF \E j \in 1..Len(lines) : lines[j] = l THEN CHOOSE j \in 1..Len(lines) : lines[j] = l ELSE 0
Line(n, refs) == [op |-> prog[n].op, args |-> refs, al |-> prog[n].al, comp |-> prog[n].comp, leaf |-> IF n <= NI THEN n ELSE 0, cfg |-> IF n <= NI THEN found[n] ELSE ""]
Put(l, ref) == LET rest == SubSeq(stack, 1, Len(stack) - 1) IN
               stack' = (IF rest = <<>> THEN <<>> ELSE [rest EXCEPT ![Len(rest)].refs = Append(@, ref), ![Len(rest)].j = @ + 1])
Write == /\ phase = "write" /\ stack # <<>>
         /\ LET top == stack[Len(stack)]
                p == prog[top.n] IN
            IF top.n <= NI /\ kind[top.n] = "tensors"
            THEN phase' = "unwritable" /\ UNCHANGED <<lines, stack>>
            ELSE IF top.j <= Len(p.args)
            THEN /\ UNCHANGED <<phase, lines>>
                 /\ IF p.args[top.j] = 0 THEN stack' = [stack EXCEPT ![Len(stack)].refs = Append(@, 0), ![Len(stack)].j = @ + 1]
                    ELSE stack' = Append(stack, [n |-> p.args[top.j], j |-> 1, refs |-> <<>>])
            ELSE LET l == Line(top.n, top.refs) IN
                 /\ lines' = (IF Index(l) = 0 THEN Append(lines, l) ELSE lines)
                 /\ Put(l, IF Index(l) = 0 THEN Len(lines) + 1 ELSE Index(l))
                 /\ phase' = (IF Len(stack) = 1 THEN "written" ELSE phase)
         /\ UNCHANGED <<vars, kind, cfg, found, use, todo, uses>>
\* the design that writes what is executed adds the fallback
WrittenMore == IF What = "executed" /\ use.fb # 0
               THEN LET l == Line(use.fb, <<>>)
                        a == IF Index(l) = 0 THEN Append(lines, l) ELSE lines IN
                    Append(a, [op |-> "fb", args |-> <<Len(lines), IF Index(l) = 0 THEN Len(lines) + 1 ELSE Index(l)>>, al |-> <<>>, comp |-> 0, leaf |-> 0, cfg |-> ""])
               ELSE lines
End == /\ phase \in {"written", "unwritable", "end"} /\ phase' = "idle" /\ found' = cfg /\ stack' = <<>>
       /\ uses' = Append(uses, [use |-> use, stored |-> IF phase = "written" THEN WrittenMore ELSE <<>>])
       /\ UNCHANGED <<vars, kind, cfg, use, todo, lines>>
SNext == Building \/ Describe \/ Described \/ Begin \/ Load \/ Write \/ End
SSpec == SInit /\ [][SNext]_svars

(* --- what is stored -------------------------------------------------------------------------------------------------------------- *)
Text(u) == uses[u].stored
Wrote(u) == uses[u].use.op \in {"save", "text"}
StoredIfWritable == \A u \in 1..Len(uses) : Wrote(u) => ((Text(u) # <<>>) <=> Writable(Root))
Erased(t) == [j \in 1..Len(t) |-> [t[j] EXCEPT !.cfg = ""]]
\* whatever was done before and is asked for, the text is the same up to the configs, which are the user's or the found ones
SameText == \A u, v \in 1..Len(uses) : (Wrote(u) /\ Wrote(v)) => Erased(Text(u)) = Erased(Text(v))
ConfigsGivenOrFound == \A u \in 1..Len(uses) : \A j \in 1..Len(Text(u)) : LET l == Text(u)[j] IN
                         l.leaf # 0 => l.cfg = (IF uses[u].use.op = "text" THEN cfg[l.leaf] ELSE "own")
RefersBack == \A u \in 1..Len(uses) : \A j \in 1..Len(Text(u)) : \A a \in 1..Len(Text(u)[j].args) : Text(u)[j].args[a] < j
OnceEach == \A u \in 1..Len(uses) : \A j, k \in 1..Len(Text(u)) : Text(u)[j] = Text(u)[k] => j = k
\* what is stored means the same as the recipe
Last == IF uses = <<>> THEN <<>> ELSE Text(Len(uses))
Read == INSTANCE RecipeDag WITH prog <- Last, inp <- [j \in 1..Len(Last) |-> IF Last[j].leaf = 0 THEN <<>> ELSE inp[Last[j].leaf]]
Reproduces == Last # <<>> => \A k \in Keys : Read!Eval(Len(Last), k) = Eval(Root, k)

WithFallback(f, k) == IF f = 0 \/ Has(Eval(Root, k)) THEN Eval(Root, k) ELSE Eval(f, k)
SEmit == (phase = "idle" /\ Len(uses) = MaxUses) =>
  CSVWrite("%1$s", <<ToJson([inp |-> inp, prog |-> SubSeq(prog, NI + 1, Len(prog)), nd |-> NDelta, space |-> Space(Root), expect |-> [k \in Keys |-> Eval(Root, k)],
                             kind |-> kind, cfg |-> cfg, leaves |-> Leaves,
                             uses |-> [u \in 1..Len(uses) |-> [op |-> uses[u].use.op, fb |-> uses[u].use.fb, stored |-> Len(uses[u].stored) > 0,
                                                               expect |-> [k \in Keys |-> WithFallback(uses[u].use.fb, k)]]]])>>, IOEnv.OUT)
=============================================================================
