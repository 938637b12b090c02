------------------------------ MODULE KeyPolicy ------------------------------
(* Which keys a merge stores and which merges are rejected, under the key policy options: unrecognized (extra) keys, the
   EMA component, mandatory keys, strict merge space, non-finite values, and aliased names.

   Keys 1..NK are the keys of the config, NK+1..NK+NX are names no config knows. An input stores entries under names; a
   recognized key has its canonical name and its aliases. The behaviour builds a config, inputs, a recipe and options,
   then runs the merge key by key; the invariants compare the outcome with the documented policy. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS NI, NK, NX, NAlias, NOps, Ops, Spaces, Cfs, Entries, Flags, Comps

Unit == 256
Known == 1..NK
Extra == (NK + 1)..(NK + NX)
All == 1..(NK + NX)
Names == 1..(1 + NAlias)
None == <<>>
Has(x) == x # <<>>
Val(v, f) == <<[v |-> v, fin |-> f]>>

VARIABLES cfg,    \* per known key: [co, opt, al]; co is "m" (main), "e" (ema) or "b" (both components)
          inp,    \* per input: [sp, cf, rows]; rows[k] = entries under each name of key k
          prog,   \* method nodes, after the inputs
          draft, opts, pc, queue, out
vars == <<cfg, inp, prog, draft, opts, pc, queue, out>>

NamesOf(k) == IF k \in Known THEN 1..(1 + cfg[k].al) ELSE {1}
Stored(i, k) ==     \* what input i has for key k
  LET present == {j \in NamesOf(k) : Has(inp[i].rows[k][j])}
  IN IF present = {} THEN None ELSE inp[i].rows[k][CHOOSE j \in present : \A l \in present : j <= l]

Both(a, b, v) == Val(v, a[1].fin /\ b[1].fin)
Main == {k \in Known : cfg[k].co # "e"}
Ema == {k \in Known : cfg[k].co # "m"}
RECURSIVE Eval(_, _)
Eval(n, k) ==
  IF n <= NI THEN Stored(n, k)
  ELSE LET p == prog[n - NI]
           a == Eval(p.args[1], k)
           b == Eval(p.args[2], k)
       IN CASE p.op = "fb" -> IF Has(a) THEN a ELSE b
            [] p.op = "pick" -> IF k \in Main THEN a ELSE None
            [] p.op = "omit" -> IF k \in Main THEN None ELSE a
            [] p.op = "pickema" -> IF k \in Ema THEN a ELSE None
            [] p.op = "omitema" -> IF k \in Ema THEN None ELSE a
            [] p.op \in {"keep", "foreign", "mask"} -> a
            [] OTHER -> IF ~Has(a) \/ ~Has(b) THEN None
                        ELSE CASE p.op = "wsum" -> Both(a, b, (a[1].v \div 2) + (b[1].v \div 2))
                               [] p.op = "add" -> Both(a, b, a[1].v + b[1].v)
                               [] p.op = "sub" -> Both(a, b, a[1].v - b[1].v)
                               [] p.op = "kw" -> Both(a, b, 3 * a[1].v - b[1].v)
RECURSIVE Space(_), Leaves(_)
Space(n) == IF n <= NI THEN inp[n].sp
            ELSE LET p == prog[n - NI] IN CASE p.op = "sub" -> "d" [] p.op = "add" -> "w" [] p.op = "foreign" -> "w" [] p.op = "mask" -> "p" [] OTHER -> Space(p.args[1])
Cf(n) == IF n <= NI THEN inp[n].cf ELSE "A"
Leaves(n) == IF n <= NI THEN <<n>>       \* inputs, in the order the recipe names them
             ELSE LET p == prog[n - NI] IN IF Len(p.args) = 1 THEN Leaves(p.args[1]) ELSE Leaves(p.args[1]) \o Leaves(p.args[2])
Root == NI + Len(prog)
Reached == {Leaves(Root)[j] : j \in 1..Len(Leaves(Root))}
Donors == SelectSeq(Leaves(Root), LAMBDA i : inp[i].cf = Cf(Root) /\ inp[i].sp = Space(Root))
DonorHas(k) == {j \in 1..Len(Donors) : Has(Stored(Donors[j], k))}
FirstDonor(k) == Donors[CHOOSE j \in DonorHas(k) : \A l \in DonorHas(k) : j <= l]

OmitEma == IF opts.ema = "default" THEN ~opts.extra ELSE opts.ema = "omit"
Lacking(i) == {k \in Known : ~cfg[k].opt /\ ~Has(Stored(i, k))}
Error == IF opts.mandatory /\ \E i \in Reached : Lacking(i) # {} THEN "mandatory"
         ELSE IF opts.strict /\ Space(Root) # "w" THEN "strict" ELSE ""

(* --- setting up --------------------------------------------------------------------------------------------------- *)
NoDraft == [op |-> "", args |-> <<>>]
Init == /\ cfg = <<>> /\ inp = <<>> /\ prog = <<>> /\ draft = NoDraft /\ pc = "config" /\ queue = <<>> /\ out = <<>>
        /\ opts = [extra |-> FALSE, ema |-> "default", mandatory |-> FALSE, strict |-> FALSE, finite |-> FALSE]
Key == /\ pc = "config" /\ Len(cfg) < NK
       /\ \E co \in Comps \ (IF Len(cfg) = 0 THEN {"e"} ELSE {}), o \in Flags, al \in 0..NAlias :
            cfg' = Append(cfg, [co |-> co, opt |-> o, al |-> al])
       /\ pc' = IF Len(cfg) + 1 = NK THEN "inputs" ELSE "config"
       /\ UNCHANGED <<inp, prog, draft, opts, queue, out>>
Input == /\ pc = "inputs" /\ Len(inp) < NI
         /\ \E sp \in Spaces, cf \in Cfs : inp' = Append(inp, [sp |-> sp, cf |-> IF Len(inp) = 0 THEN "A" ELSE cf, rows |-> <<>>])
         /\ pc' = "rows"
         /\ UNCHANGED <<cfg, prog, draft, opts, queue, out>>
Cur == inp[Len(inp)].rows
RowOpen == Cur # <<>> /\ Len(Cur[Len(Cur)]) < Cardinality(NamesOf(Len(Cur)))
Entry == /\ pc = "rows"
         /\ LET k == IF RowOpen THEN Len(Cur) ELSE Len(Cur) + 1
                j == IF RowOpen THEN Len(Cur[k]) + 1 ELSE 1
                v == (Len(inp) * 1000 + k * 10 + j) * Unit
                new(e) == IF RowOpen THEN [Cur EXCEPT ![k] = Append(@, e)] ELSE Append(Cur, <<e>>)
                last == k = NK + NX /\ j = Cardinality(NamesOf(k))
            IN \E x \in Entries :
                 /\ inp' = [inp EXCEPT ![Len(inp)].rows = new(CASE x \in {"there", "here"} -> Val(v, TRUE) [] x = "inf" -> Val(v, FALSE) [] OTHER -> None)]
                 /\ pc' = IF ~last THEN "rows" ELSE IF Len(inp) = NI THEN "op" ELSE "inputs"
         /\ UNCHANGED <<cfg, prog, draft, opts, queue, out>>
Op == /\ pc = "op"
      /\ \E op \in Ops \ (IF Ema = {} THEN {"pickema", "omitema"} ELSE {}) : draft' = [NoDraft EXCEPT !.op = op]
      /\ pc' = "args" /\ UNCHANGED <<cfg, inp, prog, opts, queue, out>>
Arity(op) == IF op \in {"pick", "omit", "pickema", "omitema", "keep", "foreign", "mask"} THEN 1 ELSE 2
Last == {NI + Len(prog)} \cap (NI + 1)..(NI + NOps)
Fits(m) ==
  LET j == Len(draft.args) + 1 IN
  /\ Cf(m) = IF draft.op = "foreign" THEN "B" ELSE "A"
  /\ CASE draft.op = "sub" -> Space(m) = "w"
       [] draft.op = "add" -> Space(m) = (IF j = 1 THEN "w" ELSE "d")
       [] draft.op = "foreign" -> Space(m) = "w"
       [] draft.op = "wsum" -> Space(m) # "p" /\ (j = 1 \/ Space(m) = Space(draft.args[1]))
       [] OTHER -> j = 1 \/ Space(m) = Space(draft.args[1])
Choices == {m \in 1..Root : Fits(m)}
Arg == /\ pc = "args" /\ Len(draft.args) < Arity(draft.op)
       /\ IF Choices = {} THEN draft' = NoDraft /\ pc' = "op"
          ELSE (\E m \in Choices : draft' = [draft EXCEPT !.args = Append(@, m)]) /\ pc' = "args"
       /\ UNCHANGED <<cfg, inp, prog, opts, queue, out>>
ArgsDone == /\ pc = "args" /\ Len(draft.args) = Arity(draft.op)
            /\ LET fine == \A m \in Last : \E j \in 1..Len(draft.args) : draft.args[j] = m
               IN IF fine \/ draft.op = "foreign"
                  THEN prog' = Append(prog, draft) /\ pc' = IF Len(prog) + 1 = NOps THEN "opts" ELSE "op"
                  ELSE prog' = prog /\ pc' = "op"
            /\ draft' = NoDraft
            /\ UNCHANGED <<cfg, inp, opts, queue, out>>
Options == /\ pc = "opts"
           /\ \E e \in BOOLEAN, m \in {"default", "keep", "omit"}, ma \in BOOLEAN, s \in BOOLEAN, f \in BOOLEAN :
                opts' = [extra |-> e, ema |-> m, mandatory |-> ma, strict |-> s, finite |-> f]
           /\ pc' = "open" /\ UNCHANGED <<cfg, inp, prog, draft, queue, out>>

(* --- the merge ------------------------------------------------------------------------------------------------------ *)
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetToSeq(S \ {x})
Open == /\ pc = "open"
        /\ IF Error # "" THEN pc' = "rejected" /\ UNCHANGED queue
           ELSE /\ queue' = SetToSeq(((Known \cup (IF opts.extra THEN {k \in Extra : DonorHas(k) # {}} ELSE {})) \ (IF OmitEma THEN Ema ELSE {})))
                /\ pc' = "merge"
        /\ UNCHANGED <<cfg, inp, prog, draft, opts, out>>
Store == /\ pc = "merge" /\ queue # <<>>
         /\ LET k == Head(queue)
                r == Eval(Root, k)
            IN out' = IF Has(r) THEN Append(out, [k |-> k, v |-> r[1], from |-> 0])
                      ELSE IF opts.extra /\ DonorHas(k) # {}
                           THEN Append(out, [k |-> k, v |-> Stored(FirstDonor(k), k)[1], from |-> FirstDonor(k)]) ELSE out
         /\ queue' = Tail(queue)
         /\ UNCHANGED <<cfg, inp, prog, draft, opts, pc>>
Finish == /\ pc = "merge" /\ queue = <<>> /\ pc' = "final" /\ UNCHANGED <<cfg, inp, prog, draft, opts, queue, out>>
Next == Key \/ Input \/ Entry \/ Op \/ Arg \/ ArgsDone \/ Options \/ Open \/ Store \/ Finish
Spec == Init /\ [][Next]_vars

(* --- the documented policy ------------------------------------------------------------------------------------------- *)
Final == pc = "final"
OutKeys == {out[j].k : j \in 1..Len(out)}
Produced == {k \in All : Has(Eval(Root, k))}
ByDefaultOnlyConfigKeys == Final /\ ~opts.extra => OutKeys = Produced \cap (IF OmitEma THEN Known \ Ema ELSE Known)
ExtraKept == Final /\ opts.extra => \A k \in Extra : (k \in OutKeys) <=> DonorHas(k) # {}
EmaAsAsked == Final => (OmitEma => OutKeys \cap Ema = {}) /\ (~OmitEma => Produced \cap Ema \subseteq OutKeys)
RecipeWins == Final => \A j \in 1..Len(out) : Has(Eval(Root, out[j].k)) => out[j].v = Eval(Root, out[j].k)[1] /\ out[j].from = 0
CopiedUnchanged == Final => \A j \in 1..Len(out) : out[j].from # 0 => out[j].v = Stored(out[j].from, out[j].k)[1] /\ inp[out[j].from].sp = Space(Root)
StoredOnce == Final => \A i, j \in 1..Len(out) : i # j => out[i].k # out[j].k
RejectedForAReason == pc = "rejected" => out = <<>> /\ (opts.mandatory \/ opts.strict)

Emit == pc \in {"final", "rejected"} =>
  CSVWrite("%1$s", <<ToJson([cfg |-> cfg, inp |-> inp, prog |-> prog, opts |-> opts, error |-> Error, out |-> out,
                             produced |-> SetToSeq(Produced), nx |-> NX])>>, IOEnv.OUT)
=============================================================================
