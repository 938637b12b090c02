----------------------------- MODULE StreamOut -----------------------------
(* The streamed safetensors output (sd_mecha/streaming.py, OutSafetensorsDict).

   Threads store tensors. Each thread stages bytes in its own buffer; when the next tensor does not fit, the
   buffer is appended to the shared file under a lock, the length of the data section is accounted for, and
   the entries of the flushed tensors are published in the shared header (outside of the lock). The closing
   thread flushes what is left, moves the data section towards the end of the file if the header outgrew the
   space reserved for it, and writes the header.

   One action per critical section or shared access. The same module is model checked exhaustively
   (StreamOut.cfg) and simulated to produce schedules that are replayed into the real code (StreamOutGen.cfg). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS NThreads,     \* number of storing threads
          NStores,      \* stores per thread
          Sizes,        \* sizes of tensors in bytes
          Buffers,      \* requested buffer sizes
          Growths,      \* header growth: actual header size minus reserved size, 0 when it fits
          Chunk,        \* chunk size used to move the data section when the buffer size is 0
          WithHist      \* TRUE: record the schedule (simulation)

Threads == 1..NThreads
Key(t, i) == <<t, i>>
AllKeys == {Key(t, i) : t \in Threads, i \in 1..NStores}

VARIABLES
  size,      \* size[t][i]: bytes of the i-th tensor stored by t
  buf, grow, \* scenario: buffer size, header growth
  pc, idx,   \* per thread: control point, index of the current store
  staged,    \* per thread: keys staged in its buffer, in order
  cap,       \* per thread: capacity of its buffer
  off,       \* per thread: data offset of the flush in progress
  lock,      \* 0 or the thread that holds the lock
  data,      \* the data section: sequence of <<key, byte index>>
  flushed,   \* accounted length of the data section
  header,    \* published entries: key -> <<begin, end>>
  shift,     \* number of bytes by which the data section has been moved, from the end (close)
  hist

vars == <<size, buf, grow, pc, idx, staged, cap, off, lock, data, flushed, header, shift, hist>>
view == <<size, buf, grow, pc, idx, staged, cap, off, lock, data, flushed, header, shift>>

Closer == NThreads + 1

RECURSIVE SumSizes(_)
SumSizes(ks) == IF ks = <<>> THEN 0 ELSE size[Head(ks)[1]][Head(ks)[2]] + SumSizes(Tail(ks))
Bytes(k) == [j \in 1..size[k[1]][k[2]] |-> <<k, j>>]
RECURSIVE Concat(_)
Concat(ks) == IF ks = <<>> THEN <<>> ELSE Bytes(Head(ks)) \o Concat(Tail(ks))
Max(a, b) == IF a > b THEN a ELSE b

RECURSIVE Entries(_, _)
Entries(ks, o) ==   \* entries of consecutive tensors starting at offset o
  IF ks = <<>> THEN << >>
  ELSE LET n == size[Head(ks)[1]][Head(ks)[2]]
       IN  (Head(ks) :> <<o, o + n>>) @@ Entries(Tail(ks), o + n)

Log(t) == hist' = IF WithHist THEN Append(hist, t) ELSE hist

Init ==
  /\ size = [t \in Threads |-> <<>>]
  /\ buf \in Buffers
  /\ grow \in Growths
  /\ pc = [t \in Threads \cup {Closer} |-> IF t = Closer THEN "wait" ELSE "setup"]
  /\ idx = [t \in Threads |-> 1]
  /\ staged = [t \in Threads |-> <<>>]
  /\ cap = [t \in Threads |-> buf]
  /\ off = [t \in Threads |-> 0]
  /\ lock = 0
  /\ data = <<>> /\ flushed = 0 /\ header = << >> /\ shift = 0
  /\ hist = <<>>

\* the scenario is chosen step by step, so that simulation can sample a huge set of scenarios
Setup(t) ==
  /\ pc[t] = "setup"
  /\ \A u \in Threads : u < t => pc[u] # "setup"
  /\ \E s \in Sizes : size' = [size EXCEPT ![t] = Append(@, s)]
  /\ pc' = IF t = NThreads /\ Len(size[t]) + 1 = NStores
           THEN [u \in Threads \cup {Closer} |-> IF u = Closer THEN "wait" ELSE "store"]
           ELSE [pc EXCEPT ![t] = IF Len(size[t]) + 1 = NStores THEN "ready" ELSE "setup"]
  /\ UNCHANGED <<buf, grow, idx, staged, cap, off, lock, data, flushed, header, shift, hist>>

Cur(t) == size[t][idx[t]]
Fits(t) == Cur(t) <= cap[t] - SumSizes(staged[t])

Stage(t) ==      \* the tensor fits: copy it to the buffer
  /\ pc[t] = "store" /\ Fits(t)
  /\ staged' = [staged EXCEPT ![t] = Append(@, Key(t, idx[t]))]
  /\ idx' = [idx EXCEPT ![t] = @ + 1]
  /\ pc' = [pc EXCEPT ![t] = IF idx[t] = NStores THEN "done" ELSE "store"]
  /\ Log(t)
  /\ UNCHANGED <<size, buf, grow, cap, off, lock, data, flushed, header, shift>>

FlushLock(t) ==
  /\ \/ pc[t] = "store" /\ ~Fits(t)
  /\ lock = 0
  /\ lock' = t
  /\ pc' = [pc EXCEPT ![t] = "write"]
  /\ Log(t)
  /\ UNCHANGED <<size, buf, grow, idx, staged, cap, off, data, flushed, header, shift>>

FlushWrite(t) == \* append the staged bytes to the file
  /\ pc[t] = "write"
  /\ data' = data \o Concat(staged[t])
  /\ pc' = [pc EXCEPT ![t] = "account"]
  /\ Log(t)
  /\ UNCHANGED <<size, buf, grow, idx, staged, cap, off, lock, flushed, header, shift>>

FlushAccount(t) ==
  /\ pc[t] = "account"
  /\ off' = [off EXCEPT ![t] = flushed]
  /\ flushed' = flushed + SumSizes(staged[t])
  /\ lock' = 0
  /\ pc' = [pc EXCEPT ![t] = "publish"]
  /\ Log(t)
  /\ UNCHANGED <<size, buf, grow, idx, staged, cap, data, header, shift>>

Publish(t) ==    \* outside of the lock
  /\ pc[t] = "publish"
  /\ header' = Entries(staged[t], off[t]) @@ header
  /\ staged' = [staged EXCEPT ![t] = <<>>]
  /\ cap' = [cap EXCEPT ![t] = Max(buf, Cur(t))]
  /\ pc' = [pc EXCEPT ![t] = "store"]
  /\ Log(t)
  /\ UNCHANGED <<size, buf, grow, idx, off, lock, data, flushed, shift>>

(* --- close: all storing threads are done -------------------------------------------------------------- *)
Close ==
  /\ pc[Closer] = "wait"
  /\ \A t \in Threads : pc[t] = "done"
  /\ lock = 0
  /\ pc' = [pc EXCEPT ![Closer] = "flush"]
  /\ lock' = Closer
  /\ UNCHANGED <<size, buf, grow, idx, staged, cap, off, data, flushed, header, shift, hist>>

CloseFlush ==
  /\ pc[Closer] = "flush"
  /\ \/ \E t \in Threads :
          /\ staged[t] # <<>>
          /\ data' = data \o Concat(staged[t])
          /\ header' = Entries(staged[t], flushed) @@ header
          /\ flushed' = flushed + SumSizes(staged[t])
          /\ staged' = [staged EXCEPT ![t] = <<>>]
          /\ pc' = pc
     \/ /\ \A t \in Threads : staged[t] = <<>>
        /\ pc' = [pc EXCEPT ![Closer] = IF grow > 0 THEN "move" ELSE "header"]
        /\ UNCHANGED <<data, header, flushed, staged>>
  /\ UNCHANGED <<size, buf, grow, idx, cap, off, lock, shift, hist>>

(* Move the data section by `grow` bytes, in chunks from the end. `data` is the file seen from the start of the
   old data section; "gap" marks bytes that were never written. *)
ChunkSize == IF buf = 0 THEN Chunk ELSE buf
CloseMove ==
  /\ pc[Closer] = "move"
  /\ LET end == flushed - shift
         start == IF end > ChunkSize THEN end - ChunkSize ELSE 0
     IN  IF end = 0
         THEN /\ pc' = [pc EXCEPT ![Closer] = "header"]
              /\ UNCHANGED <<data, shift>>
         ELSE /\ data' = [j \in 1..Max(Len(data), end + grow) |->
                            IF j > start + grow /\ j <= end + grow THEN data[j - grow]
                            ELSE IF j <= Len(data) THEN data[j] ELSE <<"gap", 0>>]
              /\ shift' = shift + (end - start)
              /\ pc' = pc
  /\ UNCHANGED <<size, buf, grow, idx, staged, cap, off, lock, flushed, header, hist>>

CloseHeader ==   \* the header overwrites the first `grow` bytes of the old data section
  /\ pc[Closer] = "header"
  /\ data' = SubSeq(data, (IF flushed = 0 THEN 0 ELSE grow) + 1, Len(data))
  /\ lock' = 0
  /\ pc' = [pc EXCEPT ![Closer] = "done"]
  /\ UNCHANGED <<size, buf, grow, idx, staged, cap, off, flushed, header, shift, hist>>

Step(t) == Setup(t) \/ Stage(t) \/ FlushLock(t) \/ FlushWrite(t) \/ FlushAccount(t) \/ Publish(t)
Next == (\E t \in Threads : Step(t)) \/ Close \/ CloseFlush \/ CloseMove \/ CloseHeader
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* --- properties ------------------------------------------------------------------------------------------ *)
Finished == pc[Closer] = "done"

\* every published entry addresses exactly the bytes of its tensor (before the data section moves)
PublishedExact ==
  pc[Closer] \in {"wait", "flush"} =>
    \A k \in DOMAIN header : SubSeq(data, header[k][1] + 1, header[k][2]) = Bytes(k)
AccountedUnderLock == lock = 0 /\ pc[Closer] = "wait" => flushed = Len(data)
Mutex == Cardinality({t \in Threads : pc[t] \in {"write", "account"}}) <= 1
BufferBounded == \A t \in Threads : SumSizes(staged[t]) <= cap[t] /\ (cap[t] = buf \/ \E i \in 1..NStores : cap[t] = size[t][i])

FinalFile ==
  Finished =>
    /\ DOMAIN header = AllKeys
    /\ \A k \in AllKeys : header[k][2] - header[k][1] = size[k[1]][k[2]]
    /\ \A k \in AllKeys : SubSeq(data, header[k][1] + 1, header[k][2]) = Bytes(k)
    /\ Len(data) = flushed
    /\ \A j \in 1..Len(data) : \E k \in AllKeys : header[k][1] < j /\ j <= header[k][2]
    /\ \A k1, k2 \in AllKeys : k1 # k2 => header[k1][2] <= header[k2][1] \/ header[k2][2] <= header[k1][1]
                                          \/ header[k1][1] = header[k1][2] \/ header[k2][1] = header[k2][2]
Terminates == <>Finished

(* --- emission of schedules (simulation) ----------------------------------------------------------------- *)
Emit == Finished => CSVWrite("%1$s", <<ToJson([size |-> size, buf |-> buf, grow |-> grow, sched |-> hist])>>, IOEnv.OUT)
=============================================================================
