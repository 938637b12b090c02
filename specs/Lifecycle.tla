------------------------------ MODULE Lifecycle ------------------------------
(* What an operation on a recipe acquires and gives back: files opened one input after the other, a progress bar, an output, workers.
   Every step may fail; whatever was acquired is given back in the reverse order, and the recipe is as it was. The operations of a
   history use the same recipe; causes of failures are removed after each operation. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxNodes, MaxOps, NFiles, NKeys,
          Wraps,         \* how an input stands in the recipe: "direct", "nested", "dict", "fallback", "keyword", "shared" (the same node once more)
          Ops,           \* "memory", "file", "convert", "context"
          Faults         \* kinds of faults

VARIABLES nodes, ops, phase, op, fault, pos, files, bar, out, workers, keysdone, err, hinted, log
vars == <<nodes, ops, phase, op, fault, pos, files, bar, out, workers, keysdone, err, hinted, log>>

NoFault == [kind |-> "none", at |-> 0]
LoadFaults == {"missing", "header", "short", "suffix", "format", "infer", "mandatory", "mismatch"}
KeyFaults == {"method", "interrupt", "store", "update"}
MergeOnly == KeyFaults \cup {"space", "outdir", "outinput", "full", "bar", "barend"}
IsMerge(o) == o \in {"memory", "file"}

Init == /\ nodes = <<>> /\ ops = <<>> /\ phase = "recipe" /\ op = "" /\ fault = NoFault /\ pos = 0 /\ files = {} /\ bar = FALSE /\ out = FALSE
        /\ workers = FALSE /\ keysdone = 0 /\ err = FALSE /\ hinted = FALSE /\ log = <<>>
Run == <<op, fault, pos, files, bar, out, workers, keysdone, err, hinted, log>>
AddNode == /\ phase = "recipe" /\ Len(nodes) < MaxNodes
           /\ \E f \in 1..NFiles, w \in Wraps :
                /\ w = "shared" => Len(nodes) > 0
                /\ nodes' = Append(nodes, [file |-> IF w = "shared" THEN nodes[1].file ELSE f, wrap |-> w])
           /\ UNCHANGED <<ops, phase>> /\ UNCHANGED Run
EndRecipe == /\ phase = "recipe" /\ nodes # <<>> /\ phase' = "ops" /\ UNCHANGED <<nodes, ops>> /\ UNCHANGED Run
Applies(o, k, a) ==
  CASE k = "none" -> a = 0
    [] k \in LoadFaults -> a \in 1..Len(nodes) /\ (k = "mismatch" => nodes[a].wrap = "dict") /\ (k = "mandatory" => IsMerge(o))
    [] k \in KeyFaults -> IsMerge(o) /\ a \in 1..NKeys /\ (k = "store" => o = "memory")
    [] k \in {"outdir", "outinput", "full"} -> o = "file" /\ a = 1
    [] k = "body" -> o = "context" /\ a = 1
    [] k = "noway" -> o = "convert" /\ a = 1
    [] OTHER -> IsMerge(o) /\ a = 1
Most == IF Len(nodes) > NKeys THEN Len(nodes) ELSE NKeys
AddOp == /\ phase = "ops" /\ Len(ops) < MaxOps
         /\ \E o \in Ops, k \in Faults, a \in 0..Most :
              Applies(o, k, a) /\ ops' = Append(ops, [op |-> o, fault |-> [kind |-> k, at |-> a]])
         /\ UNCHANGED <<nodes, phase>> /\ UNCHANGED Run
\* the last operation is a merge without a fault
EndOps == /\ phase = "ops" /\ ops # <<>> /\ ops' = Append(ops, [op |-> "memory", fault |-> NoFault]) /\ phase' = "idle" /\ UNCHANGED nodes /\ UNCHANGED Run

Is(k, a) == fault.kind = k /\ fault.at = a
Begin == /\ phase = "idle" /\ Len(log) < Len(ops)
         /\ op' = ops[Len(log) + 1].op /\ fault' = ops[Len(log) + 1].fault
         /\ phase' = "load" /\ pos' = 1 /\ err' = FALSE /\ keysdone' = 0 /\ hinted' = TRUE
         /\ UNCHANGED <<nodes, ops, files, bar, out, workers, log>>
\* inputs are opened one after the other; an input that fails to open gives back what it holds itself
Load == /\ phase = "load" /\ pos <= Len(nodes)
        /\ LET bad == \E k \in LoadFaults : Is(k, pos)
               \* what is wrong with the file shows when it is opened first; what is wrong with its keys shows once it is open
               opens == ~(bad /\ fault.kind \in {"missing", "header", "short", "suffix", "format"}) IN
           /\ files' = files \cup (IF opens THEN {nodes[pos].file} ELSE {})
           /\ err' = bad /\ phase' = (IF bad THEN "close inputs" ELSE "load") /\ pos' = pos + 1
        /\ UNCHANGED <<nodes, ops, op, fault, bar, out, workers, keysdone, hinted, log>>
Loaded == /\ phase = "load" /\ pos > Len(nodes)
          /\ IF ~IsMerge(op) THEN err' = (fault.kind \in {"body", "noway"}) /\ phase' = "close inputs"
             ELSE IF fault.kind = "space" THEN err' = TRUE /\ phase' = "close inputs" ELSE err' = FALSE /\ phase' = "bar"
          /\ UNCHANGED <<nodes, ops, op, fault, pos, files, bar, out, workers, keysdone, hinted, log>>
Bar == /\ phase = "bar"
       /\ IF fault.kind = "bar" THEN err' = TRUE /\ phase' = "close inputs" /\ UNCHANGED bar ELSE bar' = TRUE /\ phase' = "output" /\ UNCHANGED err
       /\ UNCHANGED <<nodes, ops, op, fault, pos, files, out, workers, keysdone, hinted, log>>
Output == /\ phase = "output"
          /\ IF fault.kind \in {"outdir", "outinput"} THEN err' = TRUE /\ phase' = "close bar" /\ UNCHANGED <<out, workers>>
             ELSE out' = TRUE /\ workers' = TRUE /\ phase' = "keys" /\ UNCHANGED err
          /\ UNCHANGED <<nodes, ops, op, fault, pos, files, bar, keysdone, hinted, log>>
Key == /\ phase = "keys" /\ keysdone < NKeys /\ ~err
       /\ keysdone' = keysdone + 1 /\ err' = (\E k \in KeyFaults : Is(k, keysdone + 1))
       /\ UNCHANGED <<nodes, ops, op, fault, pos, files, bar, out, workers, phase, hinted, log>>
Join == /\ phase = "keys" /\ (keysdone = NKeys \/ err) /\ workers' = FALSE /\ phase' = "close output"
        /\ UNCHANGED <<nodes, ops, op, fault, pos, files, bar, out, keysdone, err, hinted, log>>
CloseOutput == /\ phase = "close output" /\ out' = FALSE /\ err' = (err \/ fault.kind = "full") /\ phase' = "close bar"
               /\ UNCHANGED <<nodes, ops, op, fault, pos, files, bar, workers, keysdone, hinted, log>>
CloseBar == /\ phase = "close bar" /\ bar' = FALSE /\ err' = (err \/ fault.kind = "barend") /\ phase' = "close inputs"
            /\ UNCHANGED <<nodes, ops, op, fault, pos, files, out, workers, keysdone, hinted, log>>
CloseInputs == /\ phase = "close inputs" /\ files' = {} /\ hinted' = FALSE /\ phase' = "idle" /\ log' = Append(log, IF err THEN "error" ELSE "ok")
               /\ UNCHANGED <<nodes, ops, op, fault, pos, bar, out, workers, keysdone, err>>
Next == AddNode \/ EndRecipe \/ AddOp \/ EndOps \/ Begin \/ Load \/ Loaded \/ Bar \/ Output \/ Key \/ Join \/ CloseOutput \/ CloseBar \/ CloseInputs
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Load \/ Loaded \/ Bar \/ Output \/ Key \/ Join \/ CloseOutput \/ CloseBar \/ CloseInputs)

Idle == phase = "idle"
NothingKept == Idle => files = {} /\ ~bar /\ ~out /\ ~workers /\ ~hinted
OutputOutlivesWorkers == workers => out
InputsOutliveAll == (out \/ workers) => files = {nodes[k].file : k \in 1..Len(nodes)}
\* an operation fails exactly when it has a fault
FaultsShow == \A k \in 1..Len(log) : (log[k] = "error") <=> ops[k].fault.kind # "none"
Works == (Idle /\ Len(log) = Len(ops) /\ ops # <<>>) => log[Len(log)] = "ok"
Ends == (phase = "load") ~> Idle
Finished == Idle /\ ops # <<>> /\ Len(log) = Len(ops)
Emit == Finished => CSVWrite("%1$s", <<ToJson([nodes |-> nodes, ops |-> ops, log |-> log])>>, IOEnv.OUT)
=============================================================================
