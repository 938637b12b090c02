------------------------------ MODULE ConfigText ------------------------------
(* Model configs and their text form. A config is built component by component and key by key; its text is a sequence of entries at
   nesting levels, where fields with their default value are left out; reading goes through the entries once. Identifiers are
   recognized character by character. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Mode,            \* "config" or "identifier"
          Alphabet, MaxLen, \* identifier
          Names, Shapes, Dtypes, MaxComps, MaxKeys, MaxAliases

VARIABLES id, st, verdict, config, phase, text, pos, read
vars == <<id, st, verdict, config, phase, text, pos, read>>

(* --- identifiers: <architecture>-<implementation> ----------------------------------------------------------------------------- *)
Word == {"a", "z", "0", "9", ".", "_", "+"}
Step(s, c) == IF s = "no" THEN "no"
              ELSE IF c \in Word THEN (CASE s = "start" -> "arch" [] s = "arch" -> "arch" [] s = "dash" -> "impl" [] OTHER -> "impl")
              ELSE IF c = "-" /\ s = "arch" THEN "dash" ELSE "no"
(* --- configs --------------------------------------------------------------------------------------------------------------------- *)
Key(n, sh, dt, al, op) == [name |-> n, shape |-> sh, dtype |-> dt, aliases |-> al, optional |-> op]
Comp(n, ks) == [name |-> n, keys |-> ks]
KeysUsed == UNION {{config[i].keys[j].name : j \in 1..Len(config[i].keys)} : i \in 1..Len(config)}
Init == /\ id = <<>> /\ st = "start" /\ verdict = "" /\ config = <<>> /\ text = <<>> /\ pos = 0 /\ read = <<>>
        /\ phase = (IF Mode = "identifier" THEN "id" ELSE "build")
Char == /\ phase = "id" /\ Len(id) < MaxLen
        /\ \E c \in Alphabet : id' = Append(id, c) /\ st' = Step(st, c)
        /\ UNCHANGED <<verdict, config, phase, text, pos, read>>
EndId == /\ phase = "id" /\ verdict' = (IF st = "impl" THEN "valid" ELSE "invalid") /\ phase' = "done"
         /\ UNCHANGED <<id, st, config, text, pos, read>>
AddComp == /\ phase = "build" /\ Len(config) < MaxComps
           /\ \E n \in Names : (\A i \in 1..Len(config) : config[i].name # n) /\ config' = Append(config, Comp(n, <<>>))
           /\ UNCHANGED <<id, st, verdict, phase, text, pos, read>>
Last == Len(config)
AddKey == /\ phase = "build" /\ config # <<>> /\ Len(config[Last].keys) < MaxKeys
          /\ \E n \in Names \ KeysUsed, s \in Shapes, d \in Dtypes :
               config' = [config EXCEPT ![Last].keys = Append(@, Key(n, s, d, <<>>, FALSE))]
          /\ UNCHANGED <<id, st, verdict, phase, text, pos, read>>
LastKey == Len(config[Last].keys)
AddAlias == /\ phase = "build" /\ config # <<>> /\ config[Last].keys # <<>> /\ Len(config[Last].keys[LastKey].aliases) < MaxAliases
            /\ \E n \in Names : config' = [config EXCEPT ![Last].keys[LastKey].aliases = Append(@, n)]
            /\ UNCHANGED <<id, st, verdict, phase, text, pos, read>>
MakeOptional == /\ phase = "build" /\ config # <<>> /\ config[Last].keys # <<>> /\ ~config[Last].keys[LastKey].optional
                /\ config' = [config EXCEPT ![Last].keys[LastKey].optional = TRUE]
                /\ UNCHANGED <<id, st, verdict, phase, text, pos, read>>

(* --- the text: entries [level, name, value] ---------------------------------------------------------------------------------------- *)
Entry(l, n, v) == [l |-> l, n |-> n, v |-> v]
WriteKey(k) == <<Entry(2, k.name, ""), Entry(3, "shape", k.shape), Entry(3, "dtype", k.dtype)>>
               \o (IF k.aliases = <<>> THEN <<>> ELSE <<Entry(3, "aliases", "")>> \o [i \in 1..Len(k.aliases) |-> Entry(4, "", k.aliases[i])])
               \o (IF k.optional THEN <<Entry(3, "optional", "true")>> ELSE <<>>)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
WriteComp(c) == <<Entry(1, c.name, "")>> \o Flat([i \in 1..Len(c.keys) |-> WriteKey(c.keys[i])])
WriteAll(cs) == Flat([i \in 1..Len(cs) |-> WriteComp(cs[i])])
Write == /\ phase = "build" /\ text' = WriteAll(config) /\ phase' = "read" /\ pos' = 1
         /\ UNCHANGED <<id, st, verdict, config, read>>
R == Len(read)
RK == Len(read[R].keys)
Read == /\ phase = "read" /\ pos <= Len(text)
        /\ LET e == text[pos] IN
           read' = (CASE e.l = 1 -> Append(read, Comp(e.n, <<>>))
                      [] e.l = 2 -> [read EXCEPT ![R].keys = Append(@, Key(e.n, "", "", <<>>, FALSE))]
                      [] e.l = 3 /\ e.n = "shape" -> [read EXCEPT ![R].keys[RK].shape = e.v]
                      [] e.l = 3 /\ e.n = "dtype" -> [read EXCEPT ![R].keys[RK].dtype = e.v]
                      [] e.l = 3 /\ e.n = "optional" -> [read EXCEPT ![R].keys[RK].optional = TRUE]
                      [] e.l = 4 -> [read EXCEPT ![R].keys[RK].aliases = Append(@, e.v)]
                      [] OTHER -> read)
        /\ pos' = pos + 1 /\ UNCHANGED <<id, st, verdict, config, phase, text>>
EndRead == phase = "read" /\ pos > Len(text) /\ phase' = "done" /\ UNCHANGED <<id, st, verdict, config, text, pos, read>>
Next == Char \/ EndId \/ AddComp \/ AddKey \/ AddAlias \/ MakeOptional \/ Write \/ Read \/ EndRead
Spec == Init /\ [][Next]_vars

Done == phase = "done"
RoundTrip == Done /\ Mode = "config" => read = config
SameText == Done /\ Mode = "config" => WriteAll(read) = text
DefaultsLeftOut == \A i \in 1..Len(text) : text[i].l = 3 /\ text[i].n = "optional" => text[i].v = "true"
Dashes == {j \in 1..Len(id) : id[j] = "-"}
IdentifierParts == Done /\ Mode = "identifier" =>
  (verdict = "valid" <=> /\ Cardinality(Dashes) = 1 /\ \A j \in 1..Len(id) : id[j] \in Word \cup {"-"}
                         /\ Dashes \cap {1, Len(id)} = {})
Emit == Done => CSVWrite("%1$s", <<ToJson([id |-> id, verdict |-> verdict, config |-> config])>>, IOEnv.OUT)
=============================================================================
