------------------------------- MODULE Registry -------------------------------
(* The registries of extensions. Spaces, model configs (base and auxiliary ones share their identifiers) and model formats refuse
   identifiers that are taken; methods replace each other. Every object registered has its own number. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Ids, MaxOps, Kinds      \* Kinds: subset of {"space", "base", "aux", "format", "method", "private", "converter"}

VARIABLES reg, ops
vars == <<reg, ops>>

Table(kind) == CASE kind \in {"base", "aux"} -> "config" [] kind = "converter" -> "method" [] OTHER -> kind
Tables == {"space", "config", "format", "method"}
Taken(t) == {id \in Ids : reg[t][id] # 0}
Init == reg = [t \in Tables |-> [id \in Ids |-> 0]] /\ ops = <<>>
Log(op, kind, id, out) == ops' = Append(ops, [op |-> op, kind |-> kind, id |-> id, out |-> out])
KindOf(n) == ops[n].kind
Register(kind, id) ==
  LET t == Table(kind) n == Len(ops) + 1 IN
  IF kind = "private" THEN Log("register", kind, id, "ok") /\ UNCHANGED reg
  ELSE IF reg[t][id] # 0 /\ t # "method" THEN Log("register", kind, id, "taken") /\ UNCHANGED reg
  ELSE Log("register", kind, id, "ok") /\ reg' = [reg EXCEPT ![t][id] = n]
Resolve(t, id) == Log("resolve", t, id, IF reg[t][id] = 0 THEN "unknown" ELSE ToString(reg[t][id])) /\ UNCHANGED reg
Next == /\ Len(ops) < MaxOps
        /\ \/ \E k \in Kinds, id \in Ids : Register(k, id)
           \/ \E t \in {Table(k) : k \in Kinds \ {"private"}}, id \in Ids : Resolve(t, id)
Spec == Init /\ [][Next]_vars

(* what enumerating has to give: the numbers of the registrations that hold *)
All(t) == {reg[t][id] : id \in Taken(t)}
OfKind(t, kind) == {n \in All(t) : KindOf(n) = kind}

(* --- properties --------------------------------------------------------------------------------------------------------------- *)
OncePerIdentifier == \A t \in Tables : \A n \in All(t) : Cardinality({id \in Ids : reg[t][id] = n}) = 1
ResolvesWhatWasRegistered == \A i \in 1..Len(ops) : ops[i].op = "resolve" /\ ops[i].out # "unknown" =>
  \E j \in 1..(i - 1) : ops[j].op = "register" /\ ops[j].out = "ok" /\ ops[j].id = ops[i].id /\ ToString(j) = ops[i].out /\ Table(ops[j].kind) = ops[i].kind
FirstStays == \A i, j \in 1..Len(ops) : i < j /\ ops[i].op = "register" /\ ops[j].op = "register" /\ ops[i].out = "ok" /\ ops[j].out = "ok"
  /\ ops[i].id = ops[j].id /\ Table(ops[i].kind) = Table(ops[j].kind) => Table(ops[i].kind) = "method" \/ ops[i].kind = "private" 
PrivateUnknown == \A i \in 1..Len(ops) : ops[i].op = "resolve" /\ ops[i].kind = "method" /\ ops[i].out # "unknown" => \E j \in 1..(i - 1) : ToString(j) = ops[i].out /\ ops[j].kind # "private"
NeverForgotten == [][\A t \in Tables, id \in Ids : reg[t][id] # 0 => reg'[t][id] # 0]_vars

Emit == Len(ops) = MaxOps => CSVWrite("%1$s", <<ToJson([ops |-> ops,
          all |-> [space |-> All("space"), base |-> OfKind("config", "base"), aux |-> OfKind("config", "aux"), format |-> All("format"), method |-> All("method"),
                   converter |-> OfKind("method", "converter")]])>>, IOEnv.OUT)
=============================================================================
