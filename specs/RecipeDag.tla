------------------------------ MODULE RecipeDag ------------------------------
(* What a merge computes: the value of every key of the model config, for a recipe graph (shared nodes, literals,
   dictionaries of recipes) over inputs with missing and aliased keys.

   Values are integers (multiples of Unit, so that halving stays exact), a missing value is the empty sequence. A program is
   a sequence of nodes; nodes 1..NI are the inputs, the others apply a method to earlier nodes. The behaviours of the
   module build a program step by step; the last node is the recipe. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS NI,         \* inputs (the last NDelta are deltas)
          NDelta,
          NK,         \* keys of the config
          NAlias,     \* aliases per key
          NOps,       \* method nodes
          Ops,        \* methods to choose from
          Vals,       \* values of the inputs, in units
          Alphas,     \* values of the hyperparameter in halves, plus 2, plus 2
          MissOneIn,  \* 0: inputs have all keys; otherwise the choice of an entry includes "missing" this many times
          Chain       \* TRUE: every method node uses one of the two preceding method nodes

Unit == 4096
Keys == 1..NK
Names == 1..(1 + NAlias)       \* 1: the canonical name, 1 + j: the j-th alias
Comp == [c \in 1..2 |-> IF c = 1 THEN {k \in Keys : k % 2 = 1} ELSE {k \in Keys : k % 2 = 0}]
NextKey(k) == IF k = NK THEN 1 ELSE k + 1

VARIABLES inp, prog, draft, pc
vars == <<inp, prog, draft, pc>>

None == <<>>
Some(v) == <<v>>
Has(x) == x # <<>>

(* --- lookup of a key in an input: the canonical name first, then the aliases in their order --------------------- *)
RECURSIVE FirstOf(_, _)
FirstOf(names, j) == IF j > Len(names) THEN None ELSE IF Has(names[j]) THEN names[j] ELSE FirstOf(names, j + 1)
Lookup(i, k) == FirstOf(inp[i][k], 1)

(* --- evaluation of node n on key k ------------------------------------------------------------------------------- *)
RECURSIVE Eval(_, _), SumArgs(_, _, _), SumKeys(_, _)
SumArgs(n, k, j) ==       \* all arguments are needed
  IF j > Len(prog[n].args) THEN Some(0)
  ELSE LET x == Eval(prog[n].args[j], k)
           r == SumArgs(n, k, j + 1)
       IN IF Has(x) /\ Has(r) THEN Some(x[1] + r[1]) ELSE None
SumKeys(m, k) ==          \* sum of what node m has from key k on
  IF k > NK THEN 0 ELSE LET x == Eval(m, k) IN (IF Has(x) THEN x[1] ELSE 0) + SumKeys(m, k + 1)

Lerp(a, b, al) == IF Has(a) /\ Has(b) THEN Some((2 - al) * (a[1] \div 2) + al * (b[1] \div 2)) ELSE None
Eval(n, k) ==
  LET p == prog[n]
      a == Eval(p.args[1], k)
      b == Eval(p.args[2], k)
  IN CASE p.op = "input" -> Lookup(n, k)
       [] p.op = "wsum"  -> IF ~Has(p.al[k]) THEN None
                            ELSE IF p.al[k][1] = 0 THEN a
                            ELSE IF p.al[k][1] = 2 THEN b
                            ELSE Lerp(a, b, p.al[k][1])
       [] p.op = "add"   -> IF Has(a) /\ Has(b) /\ Has(p.al[k]) THEN Some(a[1] + p.al[k][1] * (b[1] \div 2)) ELSE None
       [] p.op = "sub"   -> IF Has(a) /\ Has(b) THEN Some(a[1] - b[1]) ELSE None
       [] p.op = "avg"   -> LET s == SumArgs(n, k, 1) IN IF Has(s) THEN Some(s[1] \div Len(p.args)) ELSE None
       [] p.op = "fb"    -> IF Has(a) THEN a ELSE b
       [] p.op = "pick"  -> IF k \in Comp[p.comp] THEN a ELSE None
       [] p.op = "omit"  -> IF k \in Comp[p.comp] THEN None ELSE a
       [] p.op = "next"  -> Eval(p.args[1], NextKey(k))               \* lazy method that reads another key
       [] p.op = "total" -> Some(SumKeys(p.args[1], 1))               \* lazy method that reads every key there is
       [] p.op = "strict" -> IF Has(a) /\ Has(b) THEN Some(a[1] + 2 * b[1]) ELSE None
       [] p.op = "kw"    -> IF Has(a) /\ Has(b) THEN Some(3 * a[1] - b[1]) ELSE None
       [] p.op = "const" -> IF Has(a) THEN Some(5 * Unit) ELSE None   \* literal given to every key
       [] p.op = "dict"  -> IF p.args[k] = 0 THEN None ELSE Eval(p.args[k], k)

(* The same, bottom up: whole maps for every node, as if every node were a materialized model. *)
RECURSIVE Table(_)
Table(n) == [k \in Keys |->
  LET p == prog[n]
      T(j) == Table(p.args[j])
  IN CASE p.op \in {"input"} -> Lookup(n, k)
       [] p.op = "fb"   -> IF Has(T(1)[k]) THEN T(1)[k] ELSE T(2)[k]
       [] p.op = "sub"  -> IF Has(T(1)[k]) /\ Has(T(2)[k]) THEN Some(T(1)[k][1] - T(2)[k][1]) ELSE None
       [] p.op = "next" -> T(1)[NextKey(k)]
       [] p.op = "pick" -> IF k \in Comp[p.comp] THEN T(1)[k] ELSE None
       [] p.op = "omit" -> IF k \notin Comp[p.comp] THEN T(1)[k] ELSE None
       [] p.op = "dict" -> IF p.args[k] = 0 THEN None ELSE Table(p.args[k])[k]
       [] OTHER -> Eval(n, k)]

RECURSIVE Space(_)
Space(n) ==
  LET p == prog[n] IN
  CASE p.op = "input" -> (IF n > NI - NDelta THEN "d" ELSE "w")
    [] p.op = "sub" -> "d"
    [] p.op = "add" -> "w"
    [] p.op = "dict" -> Space(CHOOSE m \in {p.args[j] : j \in 1..Len(p.args)} \ {0} : TRUE)
    [] OTHER -> Space(p.args[1])

(* --- building programs ------------------------------------------------------------------------------------------- *)
NoDraft == [op |-> "", args |-> <<>>, al |-> <<>>, comp |-> 0, n |-> 0]
Leaf == [op |-> "input", args |-> <<>>, al |-> <<>>, comp |-> 0, n |-> 0]

Init ==
  /\ inp = <<>>
  /\ prog = [i \in 1..NI |-> Leaf]
  /\ draft = NoDraft
  /\ pc = "inputs"

Entry == {None} \cup {Some(v * Unit) : v \in Vals}
CountEntries == IF inp = <<>> THEN 0 ELSE
  (Len(inp) - 1) * NK * (1 + NAlias) + (LET r == inp[Len(inp)] IN IF r = <<>> THEN 0 ELSE (Len(r) - 1) * (1 + NAlias) + Len(r[Len(r)]))

AddEntry(e) ==      \* the next entry, in the order input, key, name
  LET full(r) == Len(r) = NK /\ (NK = 0 \/ Len(r[NK]) = 1 + NAlias)
      new(r) == IF r = <<>> \/ Len(r[Len(r)]) = 1 + NAlias THEN Append(r, <<e>>) ELSE [r EXCEPT ![Len(r)] = Append(@, e)]
  IN IF inp = <<>> \/ full(inp[Len(inp)]) THEN Append(inp, new(<<>>)) ELSE [inp EXCEPT ![Len(inp)] = new(@)]

Inputs ==
  /\ pc = "inputs"
  /\ \E v \in Vals, miss \in 0..MissOneIn :
       inp' = AddEntry(IF MissOneIn > 0 /\ miss = 0 THEN None ELSE Some((v + (CountEntries % 3)) * Unit))
  /\ pc' = IF CountEntries + 1 = NI * NK * (1 + NAlias) THEN "op" ELSE "inputs"
  /\ UNCHANGED <<prog, draft>>

NArgs(op) == CASE op \in {"wsum", "add", "sub", "fb", "strict", "kw"} -> {2} [] op = "avg" -> {2, 4} [] op = "dict" -> {NK} [] OTHER -> {1}

Op ==
  /\ pc = "op"
  /\ \E op \in Ops : \E n \in NArgs(op) : draft' = [NoDraft EXCEPT !.op = op, !.n = n]
  /\ pc' = "args"
  /\ UNCHANGED <<inp, prog>>

Recent == {m \in {Len(prog), Len(prog) - 1} : m > NI}
FitsSpace(m) ==
  LET j == Len(draft.args) + 1
      earlier == {draft.args[i] : i \in 1..Len(draft.args)} \ {0}
  IN CASE draft.op = "sub" -> Space(m) = "w"
       [] draft.op = "add" -> Space(m) = (IF j = 1 THEN "w" ELSE "d")
       [] OTHER -> IF earlier = {} THEN TRUE ELSE Space(m) = Space(CHOOSE x \in earlier : TRUE)

Arg ==
  /\ pc = "args"
  /\ Len(draft.args) < draft.n
  /\ \/ \E m \in 1..Len(prog) :
          /\ FitsSpace(m)
          /\ draft' = [draft EXCEPT !.args = Append(@, m)]
     \/ /\ draft.op = "dict"
        /\ draft' = [draft EXCEPT !.args = Append(@, 0)]
  /\ UNCHANGED <<inp, prog, pc>>

Used == {draft.args[i] : i \in 1..Len(draft.args)}
ArgsDone ==
  /\ pc = "args" /\ Len(draft.args) = draft.n
  /\ IF (Chain /\ Recent # {} /\ Used \cap Recent = {}) \/ Used = {0}
     THEN draft' = NoDraft /\ pc' = "op"
     ELSE draft' = draft /\ pc' = "rest"
  /\ UNCHANGED <<inp, prog>>

\* the spaces may leave no argument to choose (no delta yet): try another method
Stuck == /\ pc = "args" /\ Len(draft.args) < draft.n /\ draft.op # "dict"
         /\ ~\E m \in 1..Len(prog) : FitsSpace(m)
         /\ draft' = NoDraft /\ pc' = "op"
         /\ UNCHANGED <<inp, prog>>

Rest ==     \* hyperparameters: one number for every key, or one per key (possibly missing)
  /\ pc = "rest"
  /\ IF draft.op \in {"wsum", "add"}
     THEN \E al \in {x - 2 : x \in Alphas}, how \in {"same", "cycle", "holes"} :
            draft' = [draft EXCEPT !.al = [k \in Keys |->
              IF how = "same" THEN Some(al)
              ELSE IF how = "holes" /\ k = 1 + ((al + Len(prog) + 2) % NK) THEN None
              ELSE Some(IF k % 2 = 0 THEN al ELSE 1)], !.comp = IF how = "same" THEN 0 ELSE 1]
     ELSE \E c \in (IF draft.op \in {"pick", "omit"} THEN {1, 2} ELSE {0}) :
            draft' = [draft EXCEPT !.comp = c]
  /\ pc' = "append"
  /\ UNCHANGED <<inp, prog>>

AppendNode ==
  /\ pc = "append"
  /\ prog' = Append(prog, draft)
  /\ draft' = NoDraft
  /\ pc' = IF Len(prog) + 1 = NI + NOps THEN "final" ELSE "op"
  /\ UNCHANGED inp

Next == Inputs \/ Op \/ Arg \/ ArgsDone \/ Stuck \/ Rest \/ AppendNode
Spec == Init /\ [][Next]_vars

Root == Len(prog)
Ready == pc \in {"op", "final"} /\ Len(prog) > NI
(* --- properties of the semantics ---------------------------------------------------------------------------------- *)
KeyByKey == Ready => \A k \in Keys : Eval(Root, k) = Table(Root)[k]
ComponentsPartition == Ready => LET p == prog[Root] IN p.op \in {"pick", "omit"} =>
   {k \in Keys : Has(Eval(Root, k))} = {k \in Keys : Has(Eval(p.args[1], k))} \cap (IF p.op = "pick" THEN Comp[p.comp] ELSE Keys \ Comp[p.comp])
FallbackUnion == Ready => LET p == prog[Root] IN p.op = "fb" =>
   {k \in Keys : Has(Eval(Root, k))} = {k \in Keys : Has(Eval(p.args[1], k))} \cup {k \in Keys : Has(Eval(p.args[2], k))}
CanonicalFirst == Ready => \A i \in 1..NI, k \in Keys : Has(inp[i][k][1]) => Lookup(i, k) = inp[i][k][1]
SubAdd == Ready => LET p == prog[Root] IN (p.op = "add" /\ prog[p.args[2]].op = "sub" /\ prog[p.args[2]].args[2] = p.args[1]) =>
   \A k \in Keys : (Has(Eval(Root, k)) /\ p.al[k] = Some(2)) => Eval(Root, k) = Eval(prog[p.args[2]].args[1], k)

Emit == pc = "final" =>
  CSVWrite("%1$s", <<ToJson([inp |-> inp, prog |-> SubSeq(prog, NI + 1, Len(prog)), nd |-> NDelta, space |-> Space(Root),
                             expect |-> [k \in Keys |-> Eval(Root, k)]])>>, IOEnv.OUT)
=============================================================================
