------------------------------- MODULE Session -------------------------------
(* Sessions: operations on recipes that share inputs, while files and registrations change in between. An operation determines the
   configs of the inputs it reads, one after the other, uses them, and forgets them. What it gives may only depend on the operation,
   the registrations and the files it reads, as they are then. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Files, Versions, Extras, MaxSteps, Options,
          Keep          \* a design that does not forget what it found: for showing that the property notices

VARIABLES version, registered, found, phase, cur, pos, result, hist
vars == <<version, registered, found, phase, cur, pos, result, hist>>

\* the inputs of each recipe, in the order they are read; an option adds one
Recipes == 1..9
Leaves(r) == CASE r = 1 -> <<1, 2>> [] r = 2 -> <<1, 2, 3>> [] r = 3 -> <<1, 2>> [] r = 4 -> <<1, 3>> [] r = 5 -> <<1>> [] r = 6 -> <<1>>
               [] r = 7 -> <<1, 2, 3>> [] r = 8 -> <<3>> [] OTHER -> <<2>>
\* recipes whose inputs do not have a config of their own
Open(r) == r \notin {6, 8}
\* what a file says about its config; config c is only known once it is registered
Config(v) == CASE v \in {1, 2, 5} -> "a" [] v = 3 -> "b" [] v = 4 -> (IF "config c" \in registered THEN "c" ELSE "unknown") [] OTHER -> "missing"
Inputs(s) == IF s.op \in {"serialize"} THEN <<>> ELSE (IF s.op = "convert as 1" THEN Leaves(1) ELSE <<>>) \o Leaves(s.recipe) \o (IF s.op \in {"merge", "save", "fail"} /\ s.opt = 5 THEN <<3>> ELSE <<>>)
Idle == [op |-> "idle", recipe |-> 1, opt |-> 1, file |-> 1, version |-> 1]

Init == /\ version \in [Files -> {1}] /\ registered = {} /\ found = [f \in Files |-> "open"] /\ phase = "idle" /\ cur = Idle /\ pos = 0
        /\ result = <<>> /\ hist = <<>>
Act == /\ phase = "idle" /\ Len(hist) < MaxSteps
       /\ \E o \in {"merge", "save", "fail"}, r \in Recipes, k \in Options : cur' = [Idle EXCEPT !.op = o, !.recipe = r, !.opt = k]
       /\ phase' = "read" /\ pos' = 1 /\ result' = <<>> /\ UNCHANGED <<version, registered, found, hist>>
Other == /\ phase = "idle" /\ Len(hist) < MaxSteps
         /\ \E o \in {"convert a", "convert b", "convert as 1", "serialize", "context"}, r \in Recipes : cur' = [Idle EXCEPT !.op = o, !.recipe = r]
         /\ phase' = "read" /\ pos' = 1 /\ result' = <<>> /\ UNCHANGED <<version, registered, found, hist>>
Touch == /\ phase = "idle" /\ Len(hist) < MaxSteps /\ (hist # <<>> => hist[Len(hist)].step.op # "touch")
         /\ \E f \in Files, v \in Versions : /\ version' = [version EXCEPT ![f] = v]
                                             /\ hist' = Append(hist, [step |-> [Idle EXCEPT !.op = "touch", !.file = f, !.version = v], reads |-> {}, seen |-> <<>>,
                                                                      registered |-> registered, verdict |-> ""])
         /\ UNCHANGED <<registered, found, phase, cur, pos, result>>
Register == /\ phase = "idle" /\ Len(hist) < MaxSteps
            /\ \E x \in Extras \ registered : /\ registered' = registered \cup {x}
                                              /\ hist' = Append(hist, [step |-> [Idle EXCEPT !.op = x], reads |-> {}, seen |-> <<>>, registered |-> registered', verdict |-> ""])
            /\ UNCHANGED <<version, found, phase, cur, pos, result>>
\* a file that was found to have a config keeps it until the operation ends
ReadOne == /\ phase = "read" /\ pos <= Len(Inputs(cur))
           /\ LET f == Inputs(cur)[pos]
                  c == IF found[f] # "open" THEN found[f] ELSE Config(version[f]) IN
              /\ found' = [found EXCEPT ![f] = c]
              /\ result' = Append(result, c)
              /\ IF c = "missing" THEN phase' = "end" ELSE UNCHANGED phase
           /\ pos' = pos + 1 /\ UNCHANGED <<version, registered, cur, hist>>
ReadAll == /\ phase = "read" /\ pos > Len(Inputs(cur)) /\ phase' = "end" /\ UNCHANGED <<version, registered, found, cur, pos, result, hist>>
\* what can be said about the outcome here
Verdict == LET cs == {result[k] : k \in 1..Len(result)} IN
           CASE cur.op = "serialize" -> "ok"
             [] "missing" \in cs -> "error"
             [] cur.op \in {"merge", "save"} /\ Open(cur.recipe) /\ {"a", "b"} \subseteq cs -> "error"
             [] OTHER -> "any"
End == /\ phase = "end" /\ phase' = "idle" /\ found' = (IF Keep THEN found ELSE [f \in Files |-> "open"])
       /\ hist' = Append(hist, [step |-> cur, reads |-> {<<f, version[f]>> : f \in {Inputs(cur)[k] : k \in 1..Len(Inputs(cur))}}, seen |-> result,
                                registered |-> registered, verdict |-> Verdict])
       /\ UNCHANGED <<version, registered, cur, pos, result>>
Next == Act \/ Other \/ Touch \/ Register \/ ReadOne \/ ReadAll \/ End
Spec == Init /\ [][Next]_vars

\* operations with the same arguments, registrations and contents see the same
Determined == \A j, k \in 1..Len(hist) : (hist[j].step = hist[k].step /\ hist[j].reads = hist[k].reads /\ hist[j].registered = hist[k].registered)
                => hist[j].seen = hist[k].seen /\ hist[j].verdict = hist[k].verdict
Forgotten == phase = "idle" => \A f \in Files : found[f] = "open"
Current == phase = "end" => \A k \in 1..Len(result) : result[k] = Config(version[Inputs(cur)[k]])
Emit == (phase = "idle" /\ Len(hist) = MaxSteps) => CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.OUT)
=============================================================================
