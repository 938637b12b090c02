------------------------------ MODULE StreamIn ------------------------------
(* Streamed safetensors input (sd_mecha/streaming.py, InSafetensorsDict).

   One window of the file is buffered per input, shared by all threads under a lock. A read of a key either finds the
   bytes in the window or refills it from the position of the tensor: the refill asks for at least the requested
   buffer size, the operating system may transfer fewer bytes than asked per call, and transfers nothing at the end of
   the file. A refill that cannot provide the bytes of the tensor is an error. Handed out tensors are views of the
   window they were read from, which is never written again: a refill makes a new window.

   Bytes of the file are identified by their position (1..FileLen of the data section). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS NTensors, Sizes, Gaps, Buffers, NThreads, NReads,
          Cuts,         \* "none" or how the file is truncated: subset of {"none", "some"}
          Transfers,    \* sizes an OS call may transfer: subset of {"full", "one", "half"}
          Missing,      \* TRUE: keys the file does not hold are read as well
          WithHist

Threads == 1..NThreads
Names == 1..NTensors
Absent == 0             \* stands for a key that the file does not hold

VARIABLES
  size, gap, order,     \* the layout: sizes and gaps by position in the data section; order[j] = name of j-th tensor
  buf, cut, xfer,       \* buffer size; bytes missing at the end of the data section; transfer mode of this behaviour
  phase,
  prog,                 \* prog[t]: sequence of names still to read
  pc, want,             \* per thread
  lock,
  wins,                 \* all windows made so far: <<[start, bytes]>>, the last one is current
  got, ask, from,       \* refill in progress
  handed,               \* sequence of [t, name, win, off, len] or [t, name, error]
  hist

vars == <<size, gap, order, buf, cut, xfer, phase, prog, pc, want, lock, wins, got, ask, from, handed, hist>>
view == <<size, gap, order, buf, cut, xfer, phase, prog, pc, want, lock, wins, got, ask, from, handed>>

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

RECURSIVE Begin(_)
Begin(j) == IF j = 1 THEN gap[1] ELSE Begin(j - 1) + size[j - 1] + gap[j]
Place(n) == CHOOSE j \in 1..NTensors : order[j] = n
From(n) == Begin(Place(n))
Size(n) == size[Place(n)]
FullLen == Begin(NTensors) + size[NTensors]
FileLen == FullLen - cut
Readable(n) == Size(n) = 0 \/ From(n) + Size(n) <= FileLen

Perms == {p \in [1..NTensors -> Names] : \A a, b \in 1..NTensors : a # b => p[a] # p[b]}

Init ==
  /\ size = <<>> /\ gap = <<>> /\ order \in Perms
  /\ buf \in Buffers /\ cut = 0
  /\ xfer \in Transfers
  /\ phase = "layout"
  /\ prog = [t \in Threads |-> <<>>]
  /\ pc = [t \in Threads |-> "idle"] /\ want = [t \in Threads |-> Absent]
  /\ lock = 0 /\ wins = <<[start |-> 0, bytes |-> <<>>]>> /\ got = <<>> /\ ask = 0 /\ from = 0
  /\ handed = <<>> /\ hist = <<>>

Scenario ==
  \/ /\ phase = "layout" /\ Len(size) < NTensors
     /\ \E s \in Sizes, g \in Gaps : size' = Append(size, s) /\ gap' = Append(gap, g)
     /\ UNCHANGED <<phase, prog, cut>>
  \/ /\ phase = "layout" /\ Len(size) = NTensors
     /\ \/ cut' = 0 /\ "none" \in Cuts
        \/ "some" \in Cuts /\ cut' \in 1..FullLen
     /\ phase' = "progs"
     /\ UNCHANGED <<size, gap, prog>>
  \/ /\ phase = "progs"
     /\ LET t == CHOOSE u \in Threads : Len(prog[u]) < NReads /\ \A v \in Threads : v < u => Len(prog[v]) = NReads
        IN \E n \in Names \cup (IF Missing THEN {Absent} ELSE {}) : prog' = [prog EXCEPT ![t] = Append(@, n)]
     /\ phase' = IF \A t \in Threads : Len(prog'[t]) = NReads THEN "run" ELSE "progs"
     /\ UNCHANGED <<size, gap, cut>>

Setup == Scenario /\ UNCHANGED <<order, buf, xfer, pc, want, lock, wins, got, ask, from, handed, hist>>

Scen == <<size, gap, order, buf, cut, xfer, phase>>
Log(t) == hist' = IF WithHist THEN Append(hist, t) ELSE hist
Done(t) == handed' = handed

\* names still to read: prog keeps the whole program, `handed` tells how far each thread is
Count(t) == Cardinality({j \in 1..Len(handed) : handed[j].t = t})
Next_(t) == prog[t][Count(t) + 1]
CanStart(t) == phase = "run" /\ pc[t] = "idle" /\ Count(t) < NReads

ReadMissing(t) ==
  /\ CanStart(t) /\ Next_(t) = Absent
  /\ handed' = Append(handed, [t |-> t, name |-> Absent, res |-> "missing", win |-> 0, off |-> 0])
  /\ Log(t)
  /\ UNCHANGED <<Scen, prog, pc, want, lock, wins, got, ask, from>>

ReadEmpty(t) ==
  /\ CanStart(t) /\ Next_(t) # Absent /\ Size(Next_(t)) = 0
  /\ handed' = Append(handed, [t |-> t, name |-> Next_(t), res |-> "ok", win |-> 1, off |-> 0])
  /\ Log(t)
  /\ UNCHANGED <<Scen, prog, pc, want, lock, wins, got, ask, from>>

Acquire(t) ==
  /\ CanStart(t) /\ Next_(t) # Absent /\ Size(Next_(t)) > 0 /\ lock = 0
  /\ lock' = t
  /\ want' = [want EXCEPT ![t] = Next_(t)]
  /\ LET n == Next_(t)
         w == wins[Len(wins)]
         hit == From(n) >= w.start /\ From(n) + Size(n) <= w.start + Len(w.bytes)
     IN  IF hit THEN pc' = [pc EXCEPT ![t] = "slice"] /\ UNCHANGED <<got, ask, from>>
         ELSE /\ pc' = [pc EXCEPT ![t] = "fill"]
              /\ got' = <<>> /\ from' = From(n) /\ ask' = Max(buf, Size(n))
  /\ Log(t)
  /\ UNCHANGED <<Scen, prog, wins, handed>>

Fill(t) ==     \* one OS call
  /\ pc[t] = "fill"
  /\ LET pos == from + Len(got)
         avail == IF FileLen > pos THEN FileLen - pos ELSE 0
         most == Min(ask - Len(got), avail)
         n == IF xfer = "one" THEN Min(1, most) ELSE IF xfer = "half" THEN (most + 1) \div 2 ELSE most
     IN  IF ask - Len(got) > 0 /\ n > 0
         THEN /\ got' = got \o [j \in 1..n |-> pos + j]
              /\ UNCHANGED <<pc, lock, wins, handed>>
         ELSE IF Len(got) < Size(want[t])      \* end of the file
         THEN /\ handed' = Append(handed, [t |-> t, name |-> want[t], res |-> "eof", win |-> 0, off |-> 0])
              /\ pc' = [pc EXCEPT ![t] = "idle"] /\ lock' = 0
              /\ UNCHANGED <<got, wins>>
         ELSE \* the window never extends beyond the end of the file
              /\ wins' = Append(wins, [start |-> from, bytes |-> got])
              /\ pc' = [pc EXCEPT ![t] = "slice"]
              /\ UNCHANGED <<got, lock, handed>>
  /\ Log(t)
  /\ UNCHANGED <<Scen, prog, want, ask, from>>

Slice(t) ==
  /\ pc[t] = "slice"
  /\ handed' = Append(handed, [t |-> t, name |-> want[t], res |-> "ok", win |-> Len(wins), off |-> From(want[t]) - wins[Len(wins)].start])
  /\ lock' = 0 /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ Log(t)
  /\ UNCHANGED <<Scen, prog, want, wins, got, ask, from>>

Next == Setup \/ \E t \in Threads : ReadMissing(t) \/ ReadEmpty(t) \/ Acquire(t) \/ Fill(t) \/ Slice(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* --- properties ------------------------------------------------------------------------------------------ *)
Bytes(n) == [j \in 1..Size(n) |-> From(n) + j]
Value(h) == IF Size(h.name) = 0 THEN <<>> ELSE SubSeq(wins[h.win].bytes, h.off + 1, h.off + Size(h.name))
HandedExact == \A j \in 1..Len(handed) : handed[j].res = "ok" => Value(handed[j]) = Bytes(handed[j].name)
NeverSilent == \A j \in 1..Len(handed) :
  /\ handed[j].res = "missing" <=> handed[j].name = Absent
  /\ handed[j].res = "eof" => ~Readable(handed[j].name)
  /\ (handed[j].name # Absent /\ ~Readable(handed[j].name)) => handed[j].res = "eof"
WindowBounded == \A j \in 1..Len(wins) : Len(wins[j].bytes) <= Max(buf, Max(0, CHOOSE m \in {size[x] : x \in 1..Len(size)} \cup {0} : \A x \in 1..Len(size) : size[x] <= m))
Finished == phase = "run" /\ \A t \in Threads : Count(t) = NReads
Terminates == <>Finished

Res(t) == LET hs == SelectSeq(handed, LAMBDA h : h.t = t) IN [j \in 1..Len(hs) |-> hs[j].res]
Emit == Finished => CSVWrite("%1$s", <<ToJson([size |-> size, gap |-> gap, order |-> order, buf |-> buf, cut |-> cut, xfer |-> xfer,
                                             prog |-> prog, sched |-> hist, expect |-> [t \in Threads |-> Res(t)]])>>, IOEnv.OUT)
=============================================================================
