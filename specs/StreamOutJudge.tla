--------------------------- MODULE StreamOutJudge ---------------------------
(* Judges finished output files against the postcondition of StreamOut (FinalFile), for recorded executions of the
   real code. Each trace lists what was stored and what an independent reader found in the finished file. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE i

Range(s) == {s[j] : j \in 1..Len(s)}
Keys(s) == {e.key : e \in Range(s)}
Of(s, k) == CHOOSE e \in Range(s) : e.key = k

Verdict(t) ==
  IF ~t.wellformed THEN "the file is malformed: " \o t.why
  ELSE IF Keys(t.entries) # Keys(t.stored) THEN "the listed keys are not the stored keys"
  ELSE IF Len(t.entries) # Cardinality(Keys(t.entries)) THEN "a key is listed twice"
  ELSE IF \E k \in Keys(t.stored) : Of(t.entries, k).dtype # Of(t.stored, k).dtype THEN "wrong dtype"
  ELSE IF \E k \in Keys(t.stored) : Of(t.entries, k).shape # Of(t.stored, k).shape THEN "wrong shape"
  ELSE IF \E e \in Range(t.entries) : e.e - e.b # Of(t.stored, e.key).n THEN "wrong length"
  ELSE IF \E e \in Range(t.entries) : e.e > t.size THEN "an entry is beyond the end of the file"
  ELSE IF \E k \in Keys(t.stored) : Of(t.entries, k).content # Of(t.stored, k).content THEN "wrong bytes"
  ELSE IF \E e1, e2 \in Range(t.entries) : e1.key # e2.key /\ e1.b < e2.e /\ e2.b < e1.e THEN "entries overlap"
  ELSE IF t.size # (LET RECURSIVE Sum(_)
                        Sum(n) == IF n = 0 THEN 0 ELSE t.entries[n].e - t.entries[n].b + Sum(n - 1)
                    IN Sum(Len(t.entries))) THEN "the data section has a hole"
  ELSE IF t.recipeFound # t.recipeGiven THEN "the recipe text differs"
  ELSE "ok"

Init == i = 1
Next == /\ i <= Len(Traces)
        /\ CSVWrite("%1$s", <<ToJson([i |-> i, verdict |-> Verdict(Traces[i])])>>, IOEnv.OUT)
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
