-------------------------------- MODULE Paths --------------------------------
(* How the paths of the inputs and of the output of a merge are resolved: the directories given are probed one after the other, the
   file found is opened unless it is open already, and only when all inputs are open the output is placed and written. Files can be
   links to other files. Failures leave every file as it was. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Places,       \* directories that exist; "cwd" is the working directory
          Missing,      \* directories that do not exist
          Names,        \* names of supported files
          Bad,          \* names of unsupported files
          Spellings,    \* ways to write a path
          MaxDirs, MaxInputs, MaxFiles,
          Hit           \* only inputs that are found, and full lists: for sampling

VARIABLES fs, dirs, inputs, output, phase, i, j, at, found, open, opens, verdict, written
vars == <<fs, dirs, inputs, output, phase, i, j, at, found, open, opens, verdict, written>>

None == [kind |-> "none"]
AllNames == Names \cup Bad
Loc == [place : Places, name : AllNames]
L(p, n) == [place |-> p, name |-> n]
File == [kind |-> "file"]
Link(p, n) == [kind |-> "link", place |-> p, name |-> n]
Entry(p, n) == IF p \in Places /\ L(p, n) \in DOMAIN fs THEN fs[L(p, n)] ELSE None
\* links point to entries made earlier, which are not links
Real(p, n) == LET e == Entry(p, n) IN IF e.kind = "link" THEN L(e.place, e.name) ELSE L(p, n)
Exists(p, n) == LET r == Real(p, n) IN Entry(r.place, r.name).kind = "file"
Holders(n) == {k \in 1..Len(dirs) : Exists(dirs[k], n)}
First(S) == CHOOSE k \in S : \A m \in S : k <= m
Named(x) == IF x.place # "rel" THEN L(x.place, x.name)
            ELSE IF Holders(x.name) # {} THEN L(dirs[First(Holders(x.name))], x.name) ELSE L("cwd", x.name)
NoOutput == [kind |-> "memory"]

Init == /\ fs = <<>> /\ dirs = <<>> /\ inputs = <<>> /\ output = NoOutput /\ phase = "files" /\ i = 1 /\ j = 1 /\ at = None
        /\ found = <<>> /\ open = {} /\ opens = 0 /\ verdict = "" /\ written = None

Sim == UNCHANGED <<i, j, at, found, open, opens, verdict, written>>
AddFile == /\ phase = "files" /\ Cardinality(DOMAIN fs) < MaxFiles
           /\ \E l \in Loc \ DOMAIN fs : fs' = (l :> File) @@ fs
           /\ UNCHANGED <<dirs, inputs, output, phase>> /\ Sim
AddLink == /\ phase = "files" /\ Cardinality(DOMAIN fs) < MaxFiles
           /\ \E l \in Loc \ DOMAIN fs : \E t \in {t \in DOMAIN fs : fs[t].kind = "file"} :
                \* the file formats look at the file a link names: keep to links that have the kind of their target
                (l.name \in Names <=> t.name \in Names) /\ fs' = (l :> Link(t.place, t.name)) @@ fs
           /\ UNCHANGED <<dirs, inputs, output, phase>> /\ Sim
EndFiles == /\ phase = "files" /\ (Hit => Cardinality(DOMAIN fs) = MaxFiles) /\ phase' = "dirs" /\ UNCHANGED <<fs, dirs, inputs, output>> /\ Sim
AddDir == /\ phase = "dirs" /\ Len(dirs) < MaxDirs
          /\ \E d \in Places \cup Missing : dirs' = Append(dirs, d)
          /\ UNCHANGED <<fs, inputs, output, phase>> /\ Sim
EndDirs == /\ phase = "dirs" /\ (Hit => Len(dirs) >= MaxDirs - 1) /\ phase' = "inputs" /\ UNCHANGED <<fs, dirs, inputs, output>> /\ Sim
AddInput == /\ phase = "inputs" /\ Len(inputs) < MaxInputs
            /\ \E n \in AllNames, s \in Spellings, p \in {"rel"} \cup Places :
                 LET x == [place |-> p, name |-> n] IN
                 /\ Hit => n \in Names /\ Exists(Named(x).place, n)
                 /\ inputs' = Append(inputs, [place |-> p, name |-> n, spelling |-> s])
            /\ UNCHANGED <<fs, dirs, output, phase>> /\ Sim
EndInputs == /\ phase = "inputs" /\ inputs # <<>>
             /\ \/ output' = NoOutput
                \/ \E n \in Names, p \in {"rel"} \cup Places, s \in Spellings :
                     output' = [kind |-> "file", place |-> p, name |-> n, spelling |-> s]
             /\ phase' = "probe" /\ UNCHANGED <<fs, dirs, inputs>> /\ Sim

(* --- the merge --------------------------------------------------------------------------------------------------------------- *)
In == inputs[i]
Setup == UNCHANGED <<fs, dirs, inputs, output>>
\* an input is looked for in one directory after the other; what is not found there is left to the working directory
Probe == /\ phase = "probe"
         /\ IF In.place # "rel" THEN /\ at' = L(In.place, In.name) /\ phase' = "open" /\ UNCHANGED j
            ELSE IF j > Len(dirs) THEN /\ at' = L("cwd", In.name) /\ phase' = "open" /\ UNCHANGED j
            ELSE IF Exists(dirs[j], In.name) THEN /\ at' = L(dirs[j], In.name) /\ phase' = "open" /\ UNCHANGED j
            ELSE /\ j' = j + 1 /\ UNCHANGED <<at, phase>>
         /\ Setup /\ UNCHANGED <<i, found, open, opens, verdict, written>>
Open == /\ phase = "open"
        /\ IF at.name \notin Names \/ ~Exists(at.place, at.name)
           THEN /\ verdict' = "error" /\ phase' = "done" /\ open' = {} /\ UNCHANGED <<i, j, found, opens>>
           ELSE LET r == Real(at.place, at.name) IN
                /\ found' = Append(found, r) /\ open' = open \cup {r} /\ opens' = opens + (IF r \in open THEN 0 ELSE 1)
                /\ i' = i + 1 /\ j' = 1 /\ phase' = (IF i = Len(inputs) THEN "place" ELSE "probe") /\ UNCHANGED verdict
        /\ Setup /\ UNCHANGED <<at, written>>
Target == IF output.place # "rel" THEN L(output.place, output.name)
          ELSE L(IF dirs = <<>> THEN "cwd" ELSE dirs[1], output.name)
Place == /\ phase = "place"
         /\ IF output.kind = "memory" THEN verdict' = "ok" /\ written' = None
            ELSE IF Target.place \in Missing THEN verdict' = "error" /\ written' = None
            ELSE IF Real(Target.place, Target.name) \in open THEN verdict' = "error" /\ written' = None
            ELSE verdict' = "ok" /\ written' = Real(Target.place, Target.name)
         /\ phase' = "done" /\ open' = {} /\ Setup /\ UNCHANGED <<i, j, at, found, opens>>
Next == AddFile \/ AddLink \/ EndFiles \/ AddDir \/ EndDirs \/ AddInput \/ EndInputs \/ Probe \/ Open \/ Place
Spec == Init /\ [][Next]_vars

(* --- what has to hold ---------------------------------------------------------------------------------------------------------- *)
SearchOrder == \A k \in 1..Len(found) : found[k] = Real(Named(inputs[k]).place, Named(inputs[k]).name)
OpenedOnce == opens = Cardinality({found[k] : k \in 1..Len(found)})
ErrorsWriteNothing == verdict = "error" => written = None
InputsStay == written # None => \A k \in 1..Len(found) : found[k] # written
AllOrError == verdict = "ok" => Len(found) = Len(inputs)
OutputPlace == (verdict = "ok" /\ output.kind = "file" /\ output.place = "rel" /\ dirs # <<>> /\ Entry(dirs[1], output.name).kind # "link")
                 => written = L(dirs[1], output.name)
Closed == phase = "done" => open = {}

\* the domain of fs is a set of records: as pairs for the text
Pairs == {[place |-> l.place, name |-> l.name, entry |-> fs[l]] : l \in DOMAIN fs}
Emit == phase = "done" => CSVWrite("%1$s", <<ToJson([fs |-> Pairs, dirs |-> dirs, inputs |-> inputs, output |-> output, found |-> found, opens |-> opens,
                                                     verdict |-> verdict, written |-> written])>>, IOEnv.OUT)
=============================================================================
