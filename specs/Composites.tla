----------------------------- MODULE Composites -----------------------------
(* Operators and helpers that compose elementary methods. A use of one is made step by step; its operands are brought to what the
   elementary method wants (deltas from the base, unless they are deltas already), Algebra evaluates that method, and the outcome is
   combined with the base. Term is the documented formula over elementary methods. *)
EXTENDS Algebra
CONSTANTS Helpers, LeaveOut

VARIABLES h, ops, al2, third, cl, given, res
hvars == <<h, ops, al2, third, cl, given, res>>
Operators == {"+", "-", "|"}
TaskVector == {"add_difference_ties", "add_difference_ties_extended", "ties_with_dare", "n_model_stock"}
OptionNames == [x \in {"+", "-", "|"} |-> <<>>] @@
  ("add_difference" :> <<"alpha", "clamp_to_ab">>) @@ ("add_perpendicular" :> <<"alpha">>) @@ ("add_difference_ties" :> <<"alpha", "k">>) @@
  ("add_difference_ties_extended" :> <<"alpha", "k", "vote_sgn", "apply_stock", "cos_eps", "apply_median", "eps", "maxiter", "ftol">>) @@
  ("copy_region" :> <<"width", "offset", "top_k">>) @@ ("tensor_sum" :> <<"width", "offset", "top_k">>) @@ ("rotate" :> <<"alignment", "alpha">>) @@
  ("dropout" :> <<"probability", "alpha", "overlap", "overlap_emphasis", "seed">>) @@
  ("ties_with_dare" :> <<"probability", "rescale", "alpha", "seed", "k", "vote_sgn", "apply_stock", "cos_eps", "apply_median", "eps", "maxiter", "ftol">>) @@
  ("n_model_stock" :> <<"cos_eps">>)
\* what an option is when it is left out
Default(name) == CASE name = "alpha" -> (IF h = "dropout" THEN "0.5" ELSE IF h = "rotate" THEN "0.0" ELSE "1.0")
                   [] name = "k" -> (IF h = "add_difference_ties_extended" THEN "0.2" ELSE "1.0")
                   [] name \in {"clamp_to_ab", "vote_sgn", "apply_stock", "apply_median", "top_k"} -> "False"
                   [] name = "cos_eps" -> "1e-6" [] name = "eps" -> "1e-6" [] name = "maxiter" -> "100" [] name = "ftol" -> "1e-20"
                   [] name \in {"width", "alignment", "overlap"} -> "1.0" [] name \in {"offset", "overlap_emphasis"} -> "0.0"
                   [] name = "probability" -> "0.9" [] name = "seed" -> "None" [] name = "rescale" -> "True"
Names == {OptionNames[h][i] : i \in 1..Len(OptionNames[h])}

HInit == Init /\ h = "" /\ ops = <<>> /\ al2 = 8 /\ third = FALSE /\ cl = FALSE /\ given = {} /\ res = {}
ChooseHelper == /\ pc = "method" /\ h' \in Helpers /\ n' \in (IF h' = "rotate" THEN {6} ELSE MinN..MaxN) /\ pc' = "given" /\ UNCHANGED <<m, o, args, outs, kept, elected, ops, al2, third, cl, given, res>>
ChooseGiven == /\ pc = "given" /\ pc' = "options" /\ given' \in {Names} \cup (IF LeaveOut THEN {{}} \cup {{x} : x \in Names} \cup {Names \ {x} : x \in Names} ELSE {})
               /\ UNCHANGED <<m, o, n, args, outs, kept, elected, h, ops, al2, third, cl, res>>
HasThird == h \in {"add_difference", "copy_region", "tensor_sum", "rotate"}
HOptions == /\ pc = "options" /\ pc' = "operands"
  /\ (\E a \in Alphas, y \in BOOLEAN, c \in BOOLEAN : al2' = a /\ third' = (h = "add_perpendicular" \/ (y /\ HasThird)) /\ cl' = (c /\ y /\ h = "add_difference"))
  /\ (CASE h = "add_difference_ties" -> (\E k \in Fractions : o' = [o EXCEPT !.k = k])
        [] h = "add_difference_ties_extended" -> (\E k \in Fractions, s \in BOOLEAN, t \in BOOLEAN, d \in BOOLEAN : o' = [o EXCEPT !.k = k, !.sgn = s, !.stock = t, !.median = d])
        [] h \in {"copy_region", "tensor_sum"} -> (\E w \in Widths, f \in Offsets, s \in BOOLEAN : o' = [o EXCEPT !.w = w, !.off = f, !.sgn = s])
        [] h = "rotate" -> (\E k \in {0, 8, 16} : o' = [o EXCEPT !.k = k])
        [] h = "dropout" -> (\E p \in {0, 4, 6, 8}, v \in {0, 4, 8} : o' = [o EXCEPT !.p = p, !.ov = v])
        [] h = "ties_with_dare" -> (\E k \in Fractions, s \in BOOLEAN, t \in BOOLEAN, d \in BOOLEAN, p \in {0, 4, 8}, r \in BOOLEAN :
                                       o' = [o EXCEPT !.k = k, !.sgn = s, !.stock = t, !.median = d, !.p = p, !.resc = r])
        [] OTHER -> o' = o)
  /\ UNCHANGED <<m, n, args, outs, kept, elected, h, ops, given, res>>
\* which spaces an operand may be in
SpacesOf(j) == IF h = "+" THEN (IF j = 1 THEN {"weight", "delta"} ELSE {"weight", "delta"} \ {ops[1].space})
               ELSE IF h = "|" THEN (IF j = 1 THEN {"weight", "delta", "param"} ELSE {ops[1].space})
               ELSE IF h \in TaskVector /\ j > 1 THEN {"weight", "delta"}
               ELSE IF h = "add_difference" /\ j = 2 /\ ~third THEN {"delta"}
               ELSE IF h \in {"copy_region", "tensor_sum", "rotate"} /\ ~third THEN (IF j = 1 THEN {"weight", "delta"} ELSE {ops[1].space})
               ELSE {"weight"}
Count == IF h \in TaskVector THEN (IF h = "n_model_stock" THEN {3} ELSE 2..(MaxArgs + 1)) ELSE IF h = "dropout" THEN 2..(MaxArgs + 1) ELSE IF third THEN {3} ELSE {2}
Operand == /\ pc = "operands" /\ Len(ops) < SetMax(Count) /\ (ops # <<>> => Len(ops[Len(ops)].vals) = n)
           /\ \E s \in SpacesOf(Len(ops) + 1), has \in {TRUE} \cup (IF h = "|" /\ ops = <<>> THEN {FALSE} ELSE {}) : ops' = Append(ops, [space |-> s, has |-> has, vals |-> <<>>])
           /\ UNCHANGED <<pc, m, o, n, args, outs, kept, elected, h, al2, third, cl, given, res>>
OperandValue == /\ pc = "operands" /\ ops # <<>> /\ Len(ops[Len(ops)].vals) < n /\ ~(h = "rotate" /\ Len(ops) = 2)
                /\ \E v \in -Span..Span : ops' = [ops EXCEPT ![Len(ops)].vals = Append(@, v)]
                /\ UNCHANGED <<pc, m, o, n, args, outs, kept, elected, h, al2, third, cl, given, res>>
OperandTurn == /\ pc = "operands" /\ h = "rotate" /\ Len(ops) = 2 /\ ops[2].vals = <<>>
               /\ \E t \in Turns, x \in 0..1, y \in 0..1 : ops' = [ops EXCEPT ![2].vals = [i \in 1..6 |-> Turned(ops[1].vals, t)[i] + (IF Column(i) = 1 THEN x ELSE -y)]]
               /\ UNCHANGED <<pc, m, o, n, args, outs, kept, elected, h, al2, third, cl, given, res>>
Minus(x, y) == [i \in 1..n |-> x[i] - y[i]]
DeltaOf(j) == IF ops[j].space = "weight" THEN Minus(ops[j].vals, ops[1].vals) ELSE ops[j].vals
Exactly(s) == {[i \in 1..n |-> R(s[i], 1)]}
Weight == IF ops[1].space = "weight" THEN 1 ELSE 2
\* what the elementary method gets
Bring == /\ pc = "operands" /\ Len(ops) \in Count /\ Len(ops[Len(ops)].vals) = n
         /\ m' = (CASE h = "add_difference_ties" -> "ties_sum" [] h = "add_difference_ties_extended" -> "ties_sum_extended" [] h = "ties_with_dare" -> "ties_sum_with_dropout"
                    [] h = "dropout" -> "dropout" [] h = "n_model_stock" -> "model_stock" [] h = "add_perpendicular" -> "perpendicular_component" [] h = "rotate" -> "rotate"
                    [] h \in {"copy_region", "tensor_sum"} -> (IF o.sgn THEN "top_k_tensor_sum" ELSE "tensor_sum") [] OTHER -> "")
         /\ args' = (CASE h \in TaskVector \cup {"dropout"} -> [j \in 1..(Len(ops) - 1) |-> DeltaOf(j + 1)]
                       [] h = "add_perpendicular" \/ (h \in {"copy_region", "tensor_sum", "rotate"} /\ third) -> <<Minus(ops[1].vals, ops[3].vals), Minus(ops[2].vals, ops[3].vals)>>
                       [] h \in {"copy_region", "tensor_sum", "rotate"} -> <<ops[1].vals, ops[2].vals>>
                       [] OTHER -> <<>>)
         /\ kept' = args'
         /\ pc' = (IF h \in Operators \cup {"add_difference"} THEN "done" ELSE IF h \in {"add_difference_ties", "add_difference_ties_extended"} THEN (IF n = 0 THEN "stuck" ELSE "trim")
                   ELSE IF h \in {"dropout", "ties_with_dare"} THEN (IF o.p \in {0, 8} /\ o.ov = 8 /\ ~o.stock /\ ~o.median /\ n > 0 THEN "drop" ELSE "done") ELSE "compute")
         /\ outs' = (CASE h = "-" -> Exactly(Minus(ops[1].vals, ops[2].vals))
                       [] h = "|" -> Exactly(IF ops[1].has THEN ops[1].vals ELSE ops[2].vals)
                       [] h = "+" -> Exactly(ops[3 - Weight].vals)
                       [] h = "add_difference" -> Exactly(IF third THEN Minus(ops[2].vals, ops[3].vals) ELSE ops[2].vals)
                       [] OTHER -> {})
         /\ UNCHANGED <<o, n, elected, h, ops, al2, third, cl, given, res>>
Onto(base, a, x) == R(8 * base * x[2] + a * x[1], 8 * x[2])
Combined(s) == [i \in 1..n |-> CASE h \in {"-", "|"} -> s[i]
                                 [] h = "+" -> Onto(ops[Weight].vals[i], 8, s[i])
                                 [] h = "add_difference" -> (LET x == Onto(ops[1].vals[i], al2, s[i]) p == ops[1].vals[i] q == ops[2].vals[i] IN IF cl THEN ClampTo(x, R(Min2(p, q), 1), R(Max2(p, q), 1)) ELSE x)
                                 [] h \in {"copy_region", "tensor_sum", "rotate"} -> (IF third THEN Onto(ops[3].vals[i], 8, s[i]) ELSE s[i])
                                 [] h = "n_model_stock" -> Onto(ops[1].vals[i], 8, s[i])
                                 [] OTHER -> Onto(ops[1].vals[i], al2, s[i])]
\* nothing is perpendicular to nothing
Combine == /\ pc = "done" /\ pc' = "end" /\ res' = {Combined(s) : s \in outs} /\ UNCHANGED <<m, o, n, args, outs, kept, elected, h, ops, al2, third, cl, given>>
HNext == ChooseHelper \/ ChooseGiven \/ HOptions \/ Operand \/ OperandValue \/ OperandTurn \/ Bring \/ Combine \/ ((Compute \/ Drop \/ Share \/ Trim \/ Elect \/ Agree) /\ UNCHANGED hvars)
HSpec == HInit /\ [][HNext]_<<vars, hvars>>

\* the formula: steps over operands (1..Len(ops)) and earlier steps (after them)
Step(name, a, opts) == [m |-> name, args |-> a, opts |-> opts]
L == Len(ops)
Weights == SelectSeq([j \in 1..(L - 1) |-> j + 1], LAMBDA j : h \notin TaskVector \/ ops[j].space = "weight")
Differences == [i \in 1..Len(Weights) |-> Step("subtract", <<Weights[i], 1>>, <<>>)]
Position(j) == L + Cardinality({i \in 2..j : h \notin TaskVector \/ ops[i].space = "weight"})
Vectors == [j \in 1..(L - 1) |-> IF h \notin TaskVector \/ ops[j + 1].space = "weight" THEN Position(j + 1) ELSE j + 1]
After == L + Len(Weights) + 1
OverBase(name, opts, alpha) == Differences \o <<Step(name, Vectors, opts), Step("add_difference", <<1, After>>, <<alpha>>)>>
Region(name, opts) == IF third THEN <<Step("subtract", <<1, 3>>, <<>>), Step("subtract", <<2, 3>>, <<>>), Step(name, <<4, 5>>, opts), Step("add_difference", <<3, 6>>, <<"one">>)>> ELSE <<Step(name, <<1, 2>>, opts)>>
Votes3 == <<"k", "vote_sgn", "apply_stock", "cos_eps", "apply_median", "eps", "maxiter", "ftol">>
Term == CASE h = "+" -> <<Step("add_difference", <<Weight, 3 - Weight>>, <<>>)>>
          [] h = "-" -> <<Step("subtract", <<1, 2>>, <<>>)>>
          [] h = "|" -> <<Step("fallback", <<1, 2>>, <<>>)>>
          [] h = "add_difference" -> (IF third THEN <<Step("subtract", <<2, 3>>, <<>>), Step("add_difference", <<1, 4>>, <<"alpha">>)>> ELSE <<Step("add_difference", <<1, 2>>, <<"alpha">>)>>)
                                     \o (IF cl /\ "clamp_to_ab" \in given THEN <<Step("clamp", <<L + (IF third THEN 2 ELSE 1), 1, 2>>, <<>>)>> ELSE <<>>)
          [] h = "add_perpendicular" -> <<Step("subtract", <<1, 3>>, <<>>), Step("subtract", <<2, 3>>, <<>>), Step("perpendicular_component", <<4, 5>>, <<>>), Step("add_difference", <<1, 6>>, <<"alpha">>)>>
          [] h = "add_difference_ties" -> OverBase("ties_sum", <<"k">>, "alpha")
          [] h = "add_difference_ties_extended" -> OverBase("ties_sum_extended", Votes3, "alpha")
          [] h = "ties_with_dare" -> OverBase("ties_sum_with_dropout", <<"probability", "no_rescale", "seed">> \o Votes3, "alpha")
          [] h = "dropout" -> OverBase("dropout", <<"probability", "overlap", "overlap_emphasis", "seed">>, "alpha")
          [] h = "n_model_stock" -> OverBase("model_stock", <<"cos_eps">>, "one")
          [] h \in {"copy_region", "tensor_sum"} -> Region(IF o.sgn /\ "top_k" \in given THEN "top_k_tensor_sum" ELSE "tensor_sum", <<"width", "offset">>)
          [] h = "rotate" -> Region("rotate", <<"alignment", "alpha">>)

---------------------------------------------------------------------------
End == pc = "end"
All(P(_, _)) == End => \A s \in res : \A i \in 1..n : P(s[i], i)
NothingAdded == al2 = 0 /\ h \in {"add_difference", "add_perpendicular", "dropout"} \cup (TaskVector \ {"n_model_stock"}) /\ ~cl => All(LAMBDA x, i : Eq(x, R(ops[1].vals[i], 1)))
ClampedBetween == cl => All(LAMBDA x, i : Leq(R(Min2(ops[1].vals[i], ops[2].vals[i]), 1), x) /\ Leq(x, R(Max2(ops[1].vals[i], ops[2].vals[i]), 1)))
\* a model that is a, moved from a to b, is b
Moves == End /\ h = "add_difference" /\ third /\ al2 = 8 /\ ops[1] = ops[3] => \A s \in res : \A i \in 1..n : Eq(s[i], R(ops[2].vals[i], 1))
\* a region does not depend on what it is seen from
SeenFrom == End /\ h \in {"copy_region", "tensor_sum"} /\ ~o.sgn => \A s \in res : \A i \in 1..n : s[i][1] \in {ops[1].vals[i] * s[i][2], ops[2].vals[i] * s[i][2]}
Sums == h = "+" => All(LAMBDA x, i : Eq(x, R(ops[1].vals[i] + ops[2].vals[i], 1)))
OnlyDropped == h \in {"dropout", "ties_with_dare"} /\ o.p = 8 => All(LAMBDA x, i : Eq(x, R(ops[1].vals[i], 1)))
SameModels == End /\ h = "n_model_stock" /\ ops[2] = ops[3] /\ ops[2].space = "weight" => \A s \in res : \A i \in 1..n : Eq(s[i], R(ops[2].vals[i], 1))
\* deltas that are given as deltas, and as models, are the same operands
Steps == End => \A k \in 1..Len(Term) : \A x \in 1..Len(Term[k].args) : Term[k].args[x] < L + k
EmitUse == (End \/ pc = "stuck") => CSVWrite("%1$s", <<ToJson([h |-> h, n |-> n, o |-> o, al |-> al2, third |-> third, cl |-> cl, ops |-> ops, given |-> [i \in 1..Len(OptionNames[h]) |-> OptionNames[h][i] \in given],
                                        names |-> OptionNames[h], defaults |-> [i \in 1..Len(OptionNames[h]) |-> Default(OptionNames[h][i])], term |-> Term, res |-> res])>>, IOEnv.OUT)
=============================================================================
