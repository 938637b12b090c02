------------------------------- MODULE Budget -------------------------------
(* The buffer budget of a merge: the requested size is shared by the opened files; every input keeps one window, every
   worker stages results of at most its share before they are appended to the output file.

   A scenario is a recipe (which files it reads, how often and where), a number of workers, tensor sizes and the requested
   size. Workers evaluate keys in any interleaving; reading a key slides the window of the file, storing a result flushes
   what the worker staged if it does not fit anymore. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxFiles, NKeys, Sizes, Totals, MaxWorkers, Outputs, Nestings

VARIABLES nf, nest, nw, total, out, size, pc, window, staged, stored, written, cur, todo
vars == <<nf, nest, nw, total, out, size, pc, window, staged, stored, written, cur, todo>>

Keys == 1..NKeys
Files == 1..nf
WorkerSet == 1..(IF nw = 0 THEN 1 ELSE nw)
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

Opened == nf + (IF out = "file" THEN 1 ELSE 0)
Share == total \div Opened
OutShare == Share \div Max(1, nw)
Largest == IF size = <<>> THEN 0 ELSE CHOOSE s \in {size[k] : k \in 1..Len(size)} : \A k \in 1..Len(size) : size[k] <= s

Init ==
  /\ nf \in 1..MaxFiles /\ nest \in Nestings /\ nw \in 0..MaxWorkers /\ total \in Totals /\ out \in Outputs
  /\ size = <<>> /\ pc = "setup"
  /\ window = [f \in Files |-> <<0, 0>>]
  /\ staged = [w \in WorkerSet |-> 0]
  /\ stored = 0 /\ written = 0
  /\ cur = [w \in WorkerSet |-> <<0, 0>>]      \* key in evaluation, files read so far
  /\ todo = 1

Setup ==
  /\ pc = "setup"
  /\ \E s \in Sizes : size' = Append(size, s)
  /\ pc' = IF Len(size) + 1 = NKeys THEN "run" ELSE "setup"
  /\ UNCHANGED <<nf, nest, nw, total, out, window, staged, stored, written, cur, todo>>

Start(w) ==
  /\ pc = "run" /\ cur[w][1] = 0 /\ todo <= NKeys
  /\ cur' = [cur EXCEPT ![w] = <<todo, 0>>]
  /\ todo' = todo + 1
  /\ UNCHANGED <<nf, nest, nw, total, out, size, pc, window, staged, stored, written>>

Offset(k) == SumOver(size, 1..(k - 1))
Read(w) ==
  LET k == cur[w][1]
      f == cur[w][2] + 1
      from == window[f][1]
      to == from + window[f][2]
      len == IF Offset(k) >= from /\ Offset(k) + size[k] <= to THEN window[f][2] ELSE Max(Share, size[k])
      rest == SumOver(size, k..NKeys)
  IN  /\ pc = "run" /\ k # 0 /\ f <= nf
      /\ window' = IF len = window[f][2] /\ Offset(k) >= from /\ Offset(k) + size[k] <= to THEN window
                   ELSE [window EXCEPT ![f] = <<Offset(k), IF len > rest THEN rest ELSE len>>]
      /\ cur' = [cur EXCEPT ![w] = <<k, f>>]
      /\ UNCHANGED <<nf, nest, nw, total, out, size, pc, staged, stored, written, todo>>

Store(w) ==
  LET k == cur[w][1] IN
  /\ pc = "run" /\ k # 0 /\ cur[w][2] = nf
  /\ IF out # "file" THEN UNCHANGED <<staged, stored, written>>
     ELSE /\ stored' = stored + size[k]
          /\ IF staged[w] + size[k] > Max(OutShare, 0)
             THEN written' = written + staged[w] /\ staged' = [staged EXCEPT ![w] = size[k]]
             ELSE written' = written /\ staged' = [staged EXCEPT ![w] = @ + size[k]]
  /\ cur' = [cur EXCEPT ![w] = <<0, 0>>]
  /\ UNCHANGED <<nf, nest, nw, total, out, size, pc, window, todo>>

Next == Setup \/ \E w \in WorkerSet : Start(w) \/ Read(w) \/ Store(w)
Spec == Init /\ [][Next]_vars

(* --- properties ------------------------------------------------------------------------------------------ *)
Buffered == SumOver([f \in Files |-> window[f][2]], Files) + SumOver(staged, WorkerSet)
Bound == total + Largest * (Opened + 2 * Cardinality(WorkerSet))   \* a window or a staging buffer holds at least one tensor, every worker has a result in flight
Bounded == pc = "run" => Buffered <= Bound
StagedIsNotWritten == out = "file" => stored - written = SumOver(staged, WorkerSet)
WindowAtMostShare == pc = "run" => \A f \in Files : window[f][2] <= Max(Share, Largest)

Emit == pc = "run" /\ todo = 1 /\ (\A w \in WorkerSet : cur[w][1] = 0) =>
  CSVWrite("%1$s", <<ToJson([nf |-> nf, nest |-> nest, nw |-> nw, total |-> total, out |-> out, size |-> size,
                            bound |-> Bound, window |-> Max(Share, Largest),
                            staged |-> IF out = "file" THEN Cardinality(WorkerSet) * (Max(OutShare, Largest) + Largest) ELSE 0])>>, IOEnv.OUT)
=============================================================================
