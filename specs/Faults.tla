------------------------------- MODULE Faults -------------------------------
(* A merge of two streamed model files into a file, on an operating system that truncates inputs, transfers fewer
   bytes than asked, and fails writes. The recipe adds the tensors of both inputs key by key; keys of the config that
   one input lacks may or may not be loaded from the other one, keys outside of the config are not read at all.

   The design: a worker loads both arguments of a key, then stores the result; the first error other than a missing
   key ends the merge with that error. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS NKeys,         \* number of keys; the last one is not part of the config
          CutKinds,      \* where an input is cut: subset of {"none", "length", "header", "data"}
          WriteFaults,   \* subset of {"none", "error", "short-error", "zero", "close"}
          Transfers, Buffers, ThreadCounts

VARIABLES present,       \* present[f]: set of key indices in file f, in data order = key order
          cut,           \* cut[f]: [kind, at]  (data: bytes of tensors up to and including tensor number `at` - 1 remain)
          wfault, wnum,  \* kind of write fault and number of the write it hits
          xfer, buf, threads,
          phase, todo, writes, outcome, stored

vars == <<present, cut, wfault, wnum, xfer, buf, threads, phase, todo, writes, outcome, stored>>

Files == {1, 2}
KI == 1..NKeys
InConfig == KI \ {NKeys}

Init ==
  /\ present = [f \in Files |-> {}]
  /\ cut = [f \in Files |-> [kind |-> "none", at |-> 0]]
  /\ wfault \in WriteFaults /\ wnum = 0 /\ xfer \in Transfers /\ buf \in Buffers /\ threads \in ThreadCounts
  /\ phase = 1 /\ todo = {} /\ writes = 0 /\ outcome = "running" /\ stored = {}

Setup ==
  \/ /\ phase \in Files
     /\ \E s \in SUBSET KI : s # {} /\ present' = [present EXCEPT ![phase] = s]
     /\ \E k \in CutKinds, a \in 1..NKeys : cut' = [cut EXCEPT ![phase] = [kind |-> k, at |-> IF k = "data" THEN a ELSE 0]]
     /\ phase' = phase + 1
     /\ UNCHANGED <<wnum, todo>>
  \/ /\ phase = 3
     /\ wnum' \in 1..6
     /\ phase' = 4 /\ todo' = InConfig
     /\ UNCHANGED <<present, cut>>
SetupStep == Setup /\ UNCHANGED <<wfault, xfer, buf, threads, writes, outcome, stored>>

\* tensor number n (in data order) of a file
Rank(f, k) == Cardinality({j \in present[f] : j <= k})
Readable(f, k) == cut[f].kind = "none" \/ (cut[f].kind = "data" /\ Rank(f, k) < cut[f].at)
Opens(f) == cut[f].kind \in {"none", "data"}

Open ==
  /\ phase = 4 /\ outcome = "running"
  /\ phase' = 5
  /\ outcome' = IF \E f \in Files : ~Opens(f) THEN "raise" ELSE "running"
  /\ UNCHANGED <<present, cut, wfault, wnum, xfer, buf, threads, todo, writes, stored>>

Has(f, k) == k \in present[f]
Fault(w) == wfault # "none" /\ wfault # "close" /\ w = wnum

Merge(k) ==
  /\ phase = 5 /\ outcome = "running" /\ k \in todo
  /\ todo' = todo \ {k}
  /\ LET bad == \E f \in Files : Has(f, k) /\ ~Readable(f, k)
         whole == \A f \in Files : Has(f, k)
     IN  IF ~whole THEN \* a method may or may not load the other argument of a missing one
              /\ outcome' \in {"running"} \cup (IF bad THEN {"raise"} ELSE {})
              /\ UNCHANGED <<stored, writes>>
         ELSE IF bad THEN outcome' = "raise" /\ UNCHANGED <<stored, writes>>
         ELSE /\ stored' = stored \cup {k}
              \* the store may or may not reach the operating system now
              /\ \E w \in {writes, writes + 1} : writes' = w /\ outcome' = IF w > writes /\ Fault(w) THEN "raise" ELSE "running"
  /\ UNCHANGED <<present, cut, wfault, wnum, xfer, buf, threads, phase>>

Close ==   \* what is left is written, then the header
  /\ phase = 5 /\ outcome = "running" /\ todo = {}
  /\ phase' = 6
  /\ \E w \in (writes + 1)..(writes + 3) :
       /\ writes' = w
       /\ outcome' = IF wfault = "close" \/ \E v \in (writes + 1)..w : Fault(v) THEN "raise" ELSE "ok"
  /\ UNCHANGED <<present, cut, wfault, wnum, xfer, buf, threads, todo, stored>>

Next == SetupStep \/ Open \/ (\E k \in InConfig : Merge(k)) \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole == {k \in InConfig : \A f \in Files : Has(f, k)}
MustRaise == (\E f \in Files : ~Opens(f)) \/ (\E k \in Whole, f \in Files : ~Readable(f, k))
MayRaise == MustRaise \/ (\E k \in InConfig, f \in Files : Has(f, k) /\ ~Readable(f, k))

Ended == outcome # "running"
NeverSilent == outcome = "ok" => ~MustRaise /\ stored = Whole /\ (wfault \in {"error", "short-error", "zero"} => writes < wnum)
Justified == outcome = "raise" => MayRaise \/ wfault # "none"
Terminates == <>Ended

Scenario == [present |-> present, cut |-> cut, wfault |-> wfault, wnum |-> wnum, xfer |-> xfer, buf |-> buf, threads |-> threads,
             mustRaise |-> MustRaise, mayRaise |-> MayRaise, whole |-> Whole]
Emit == phase = 4 => CSVWrite("%1$s", <<ToJson(Scenario)>>, IOEnv.OUT)
=============================================================================
