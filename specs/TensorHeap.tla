---------------------------- MODULE TensorHeap ----------------------------
(* Who may write where: a merge evaluates a recipe over buffers that belong to the caller. Methods read the buffers of their operands and
   give a buffer of their own, or one of an operand (nothing copies a tensor that already has the right dtype); values that several
   nodes or tasks read are the same buffer. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Unary, Binary, Ternary, Nary, MaxOps, NI, Forms, Dtypes, Shapes, Requested, Targets, Tasks,
          Writes      \* "own": methods write to buffers they made; "operands": a design where some write to what they are given

VARIABLES pc, inputs, prog, draft, opts, heap, val, at, reads
vars == <<pc, inputs, prog, draft, opts, heap, val, at, reads>>
Methods == Unary \cup Binary \cup Ternary \cup Nary
Arity(m) == IF m \in Unary THEN {1} ELSE IF m \in Binary THEN {2} ELSE IF m \in Ternary THEN {3} ELSE {1, 2, 3, 5}

Init == /\ pc = "inputs" /\ inputs = <<>> /\ prog = <<>> /\ draft = [m |-> "", n |-> 0, args |-> <<>>] /\ opts = [dtype |-> "none", shape |-> "", target |-> "none"]
        /\ heap = <<>> /\ val = <<>> /\ at = <<>> /\ reads = {}
Input == /\ pc = "inputs" /\ Len(inputs) < NI /\ \E f \in Forms, d \in Dtypes : inputs' = Append(inputs, [form |-> f, dt |-> d])
         /\ UNCHANGED <<pc, prog, draft, opts, heap, val, at, reads>>
Options == /\ pc = "inputs" /\ Len(inputs) = NI /\ pc' = "op"
           /\ \E d \in Requested \cup {"none"}, s \in Shapes, t \in Targets : opts' = [dtype |-> d, shape |-> s, target |-> t]
           /\ UNCHANGED <<inputs, prog, draft, heap, val, at, reads>>
Op == /\ pc = "op" /\ Len(prog) < MaxOps /\ pc' = "args" /\ \E m \in Methods : \E n \in Arity(m) : draft' = [m |-> m, n |-> n, args |-> <<>>]
      /\ UNCHANGED <<inputs, prog, opts, heap, val, at, reads>>
Arg == /\ pc = "args" /\ Len(draft.args) < draft.n /\ \E a \in 1..(NI + Len(prog)) : draft' = [draft EXCEPT !.args = Append(@, a)]
       /\ UNCHANGED <<pc, inputs, prog, opts, heap, val, at, reads>>
\* later methods use the one before
OpDone == /\ pc = "args" /\ Len(draft.args) = draft.n
          /\ IF prog # <<>> /\ \A j \in 1..draft.n : draft.args[j] # NI + Len(prog) THEN UNCHANGED prog ELSE prog' = Append(prog, draft)
          /\ pc' = "op" /\ UNCHANGED <<inputs, draft, opts, heap, val, at, reads>>
\* every task evaluates the recipe; the buffers 1..NI are the caller's
Start == /\ pc = "op" /\ Len(prog) = MaxOps /\ pc' = "run" /\ heap' = [b \in 1..NI |-> 0] /\ val' = [t \in Tasks |-> [b \in 1..NI |-> b]] /\ at' = [t \in Tasks |-> 1]
         /\ UNCHANGED <<inputs, prog, draft, opts, reads>>
Operands(t) == {val[t][prog[at[t]].args[j]] : j \in 1..Len(prog[at[t]].args)}
Evaluate(t) == /\ pc = "run" /\ at[t] <= Len(prog)
               /\ \E result \in Operands(t) \cup {Len(heap) + 1}, touched \in SUBSET (IF Writes = "own" THEN {} ELSE Operands(t)) :
                    /\ heap' = [b \in 1..(IF result > Len(heap) THEN result ELSE Len(heap)) |-> IF b > Len(heap) THEN 0 ELSE IF b \in touched THEN heap[b] + 1 ELSE heap[b]]
                    /\ val' = [val EXCEPT ![t] = Append(@, result)]
                    /\ reads' = reads \cup {<<b, heap[b]>> : b \in Operands(t)}
               /\ at' = [at EXCEPT ![t] = @ + 1] /\ UNCHANGED <<pc, inputs, prog, draft, opts>>
Finish == pc = "run" /\ (\A t \in Tasks : at[t] > Len(prog)) /\ pc' = "end" /\ UNCHANGED <<inputs, prog, draft, opts, heap, val, at, reads>>
Next == Input \/ Options \/ Op \/ Arg \/ OpDone \/ Start \/ (\E t \in Tasks : Evaluate(t)) \/ Finish
Spec == Init /\ [][Next]_vars

InputsKept == \A b \in 1..Len(heap) : b <= NI => heap[b] = 0
\* what is read several times is the same each time
SameForAll == \A r, s \in reads : r[1] = s[1] => r[2] = s[2]
Emit == (pc = "op" /\ Len(prog) = MaxOps) => CSVWrite("%1$s", <<ToJson([inputs |-> inputs, prog |-> prog, opts |-> opts])>>, IOEnv.OUT)
=============================================================================
