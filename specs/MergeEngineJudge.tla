-------------------------- MODULE MergeEngineJudge --------------------------
(* Judges executions of the real merge() against MergeEngine: each trace is the scenario (as in MergeEngine) and the
   sequence of events observed through the methods, the output mapping, the progress bar and the call itself:
   start / eval (operands evaluated, method entered) / result / store / close / end. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE i

Range(s) == {s[j] : j \in 1..Len(s)}
Pos(t, name, k) == {j \in 1..Len(t.events) : t.events[j].e = name /\ t.events[j].k = k}
End(t) == {j \in 1..Len(t.events) : t.events[j].e = "end"}
Fails(t) == Range(t.fails)
Stored(t) == Range(t.stored)

Alive(t, j) == Cardinality({k \in 1..t.nkeys :
     /\ \E p \in Pos(t, "result", k) : p <= j
     /\ \A p \in Pos(t, "store", k) \cup Pos(t, "storefail", k) : p > j})

Verdict(t) ==
  LET evs == t.events
      stored(k) == Cardinality(Pos(t, "store", k))
      endAt == CHOOSE j \in End(t) : TRUE
  IN
  IF End(t) = {} THEN "the merge never ended"
  ELSE IF Fails(t) # {} /\ evs[endAt].error = 0 THEN "keys failed but the merge returned normally"
  ELSE IF Fails(t) # {} /\ evs[endAt].error \notin Fails(t) THEN "the merge raised something else than the error of a failing key"
  ELSE IF Fails(t) = {} /\ evs[endAt].error # 0 THEN "no key fails but the merge raised"
  ELSE IF \E k \in 1..t.nkeys : stored(k) > 1 THEN "a key was stored more than once"
  ELSE IF \E k \in 1..t.nkeys : stored(k) = 1 /\ k \notin Stored(t) THEN "a missing or failed key was stored"
  ELSE IF Fails(t) = {} /\ \E k \in Stored(t) : stored(k) # 1 THEN "a key was not stored although the merge returned normally"
  ELSE IF \E j \in 1..Len(evs) : j > endAt THEN "something was evaluated or stored after the merge ended"
  ELSE IF \E c \in Pos(t, "close", 0) : \E j \in 1..Len(evs) : j > c /\ evs[j].e \in {"result", "store", "start"} THEN "something was evaluated or stored after the output was closed"
  ELSE IF \E j \in 1..Len(evs) : Alive(t, j) > (IF t.nw = 0 THEN 1 ELSE t.nw) THEN "more unstored results than workers"
  ELSE "ok"

Init == i = 1
Next == /\ i <= Len(Traces)
        /\ CSVWrite("%1$s", <<ToJson([i |-> i, verdict |-> Verdict(Traces[i])])>>, IOEnv.OUT)
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
