---------------------------- MODULE MergeEngine ----------------------------
(* The execution engine of merge() (sd_mecha/merging.py): one task per key, a pool of workers that takes tasks in
   submission order, a main thread that submits, waits for completed tasks, cancels the pending ones on the first
   failure, joins the workers and only then closes the output.

   What a task does is abstracted by the outcomes of the two operands that its key reads ("ok", "miss", "err"), the shape
   of the recipe that combines them, and faults of the method itself, of the output or of the progress report. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS NKeys, Workers, Shapes, Faults, OperandOutcomes, WithHist

Keys == 1..NKeys

VARIABLES
  shape,      \* how the recipe combines its operands
  nw,         \* number of workers (0: the caller's thread runs the tasks while submitting them)
  opnd,       \* opnd[k] = <<outcome of the first operand, outcome of the second>>
  fault,      \* fault[k]: "none", "method", "store", "progress"
  submitted,  \* number of tasks submitted
  state,      \* per key: none, pending, eval, result, stored, done, failed, skipped, cancelled
  alive,      \* keys whose result exists and was not yet handed to the output
  stores,     \* per key: number of times the output received a result
  seen,       \* tasks the main thread has seen as completed
  main,       \* setup, submit, wait, raising, join, close, ok, error
  raised,     \* key whose error the merge raises, 0 if none
  closed,     \* the output is closed
  hist

vars == <<shape, nw, opnd, fault, submitted, state, alive, stores, seen, main, raised, closed, hist>>
view == <<shape, nw, opnd, fault, submitted, state, alive, stores, seen, main, raised, closed>>

(* Outcome of evaluating the recipe on a key. All operands of a strict method are evaluated: a missing operand never hides
   the error of another one. A fallback only evaluates its second operand if the first one is missing. A lazy method that
   reads its second operand first (such as add_difference) never evaluates the first one if the second is missing. *)
Outcome(sh, o, f) ==
  LET both == IF "err" \in {o[1], o[2]} THEN "err" ELSE IF "miss" \in {o[1], o[2]} THEN "miss" ELSE "ok"
      body(r) == IF r = "ok" /\ f = "method" THEN "err" ELSE r
  IN CASE sh \in {"strict", "deep", "kw", "dict"} -> body(both)
       [] sh = "fallback" -> IF o[1] = "miss" THEN o[2] ELSE o[1]
       [] sh = "lazy"     -> body(IF o[2] # "ok" THEN o[2] ELSE o[1])
       [] sh = "single"   -> body(o[1])

Fails(k) ==
  LET r == Outcome(shape, opnd[k], fault[k])
  IN  r = "err" \/ (r = "ok" /\ fault[k] = "store") \/ fault[k] = "progress"

Log(e) == hist' = IF WithHist THEN Append(hist, e) ELSE hist

Init ==
  /\ shape \in Shapes
  /\ nw \in Workers
  /\ opnd = <<>> /\ fault = <<>>
  /\ submitted = 0
  /\ state = [k \in Keys |-> "none"]
  /\ alive = {} /\ stores = [k \in Keys |-> 0] /\ seen = {}
  /\ main = "setup" /\ raised = 0 /\ closed = FALSE
  /\ hist = <<>>

Setup ==
  /\ main = "setup"
  /\ \E a \in OperandOutcomes, b \in OperandOutcomes, f \in Faults :
       /\ opnd' = Append(opnd, <<a, b>>)
       /\ fault' = Append(fault, f)
  /\ main' = IF Len(opnd) + 1 = NKeys THEN "submit" ELSE "setup"
  /\ UNCHANGED <<shape, nw, submitted, state, alive, stores, seen, raised, closed, hist>>

Submit ==
  /\ main = "submit"
  /\ \/ /\ submitted < NKeys
        /\ nw = 0 => \A k \in Keys : state[k] \notin {"pending", "eval", "result"}   \* runs inline
        /\ submitted' = submitted + 1
        /\ state' = [state EXCEPT ![submitted + 1] = "pending"]
        /\ main' = main
     \/ /\ submitted = NKeys
        /\ main' = "wait"
        /\ UNCHANGED <<submitted, state>>
  /\ UNCHANGED <<shape, nw, opnd, fault, alive, stores, seen, raised, closed, hist>>

Running == {k \in Keys : state[k] \in {"eval", "result", "stored"}}

Start(k) ==          \* a worker takes the first pending task
  /\ state[k] = "pending"
  /\ \A j \in Keys : j < k => state[j] # "pending"
  /\ Cardinality(Running) < (IF nw = 0 THEN 1 ELSE nw)
  /\ state' = [state EXCEPT ![k] = "eval"]
  /\ Log(<<"start", k>>)
  /\ UNCHANGED <<shape, nw, opnd, fault, submitted, alive, stores, seen, main, raised, closed>>

Eval(k) ==           \* the recipe is evaluated on the key
  /\ state[k] = "eval"
  /\ LET r == Outcome(shape, opnd[k], fault[k])
     IN  /\ state' = [state EXCEPT ![k] = CASE r = "ok" -> "result" [] r = "miss" -> "stored" [] OTHER -> "failed"]
         /\ alive' = IF r = "ok" THEN alive \cup {k} ELSE alive
  /\ Log(<<"eval", k>>)
  /\ UNCHANGED <<shape, nw, opnd, fault, submitted, stores, seen, main, raised, closed>>

Store(k) ==          \* the result is handed to the output
  /\ state[k] = "result"
  /\ alive' = alive \ {k}
  /\ IF fault[k] = "store"
     THEN /\ state' = [state EXCEPT ![k] = "failed"]
          /\ stores' = stores
     ELSE /\ state' = [state EXCEPT ![k] = "stored"]
          /\ stores' = [stores EXCEPT ![k] = @ + 1]
  /\ Log(<<"store", k>>)
  /\ UNCHANGED <<shape, nw, opnd, fault, submitted, seen, main, raised, closed>>

Finish(k) ==         \* progress is reported, the task ends
  /\ state[k] = "stored"
  /\ state' = [state EXCEPT ![k] = IF fault[k] = "progress" THEN "failed" ELSE "done"]
  /\ Log(<<"finish", k>>)
  /\ UNCHANGED <<shape, nw, opnd, fault, submitted, alive, stores, seen, main, raised, closed>>

InlineFails == /\ nw = 0 /\ main = "submit"
               /\ \E k \in Keys : /\ state[k] = "failed"
                                  /\ raised' = k
               /\ main' = "join"
               /\ UNCHANGED <<shape, nw, opnd, fault, submitted, state, alive, stores, seen, closed, hist>>

See(k) ==            \* as_completed yields a completed task
  /\ main = "wait" /\ k \notin seen
  /\ state[k] \in {"done", "failed"}
  /\ seen' = seen \cup {k}
  /\ IF state[k] = "failed"
     THEN /\ raised' = k
          /\ main' = "raising"
     ELSE UNCHANGED <<raised, main>>
  /\ UNCHANGED <<shape, nw, opnd, fault, submitted, state, alive, stores, closed, hist>>

Cancel ==            \* every pending task is cancelled (one by one: workers may take tasks in between)
  /\ main = "raising"
  /\ \/ \E k \in Keys : state[k] = "pending" /\ state' = [state EXCEPT ![k] = "cancelled"] /\ main' = main
     \/ /\ \A k \in Keys : state[k] # "pending"
        /\ main' = "join" /\ state' = state
  /\ UNCHANGED <<shape, nw, opnd, fault, submitted, alive, stores, seen, raised, closed, hist>>

AllSeen ==
  /\ main = "wait" /\ seen = Keys
  /\ main' = "join"
  /\ UNCHANGED <<shape, nw, opnd, fault, submitted, state, alive, stores, seen, raised, closed, hist>>

Join ==              \* leaving the executor waits for the workers, then the output is closed
  /\ main = "join"
  /\ \A k \in Keys : state[k] \in {"none", "done", "failed", "cancelled"}
  /\ main' = "close"
  /\ UNCHANGED <<shape, nw, opnd, fault, submitted, state, alive, stores, seen, raised, closed, hist>>

Close ==
  /\ main = "close"
  /\ closed' = TRUE
  /\ main' = IF raised = 0 THEN "ok" ELSE "error"
  /\ UNCHANGED <<shape, nw, opnd, fault, submitted, state, alive, stores, seen, raised, hist>>

Next == \/ Setup \/ Submit \/ InlineFails \/ Cancel \/ AllSeen \/ Join \/ Close
        \/ \E k \in Keys : Start(k) \/ Eval(k) \/ Store(k) \/ Finish(k) \/ See(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == main \in {"ok", "error"}
Configured == main # "setup"
(* --- properties ------------------------------------------------------------------------------------------ *)
ErrorSurfaces == Ended /\ (\E k \in Keys : Fails(k)) => main = "error" /\ raised # 0 /\ Fails(raised)
NormalIfNone == Ended /\ ~(\E k \in Keys : Fails(k)) => main = "ok"
StoredExactlyOnce == main = "ok" =>
  \A k \in Keys : stores[k] = (IF Outcome(shape, opnd[k], fault[k]) = "ok" THEN 1 ELSE 0)
NeverTwice == \A k \in Keys : stores[k] <= 1
NothingAfterEnd == closed => Running = {}
NothingAlive == Ended => alive \subseteq {}
Retention == Configured => Cardinality(alive) <= (IF nw = 0 THEN 1 ELSE nw)
Terminates == <>Ended

Emit == Ended =>
  CSVWrite("%1$s", <<ToJson([shape |-> shape, nw |-> nw, opnd |-> opnd, fault |-> fault, script |-> hist,
                            fails |-> {k \in Keys : Fails(k)},
                            stored |-> {k \in Keys : Outcome(shape, opnd[k], fault[k]) = "ok" /\ fault[k] # "store"},
                            ends |-> IF \E k \in Keys : Fails(k) THEN "error" ELSE "ok"])>>, IOEnv.OUT)
=============================================================================
