------------------------------ MODULE Algebra ------------------------------
(* What the elementary merge methods compute, on values that are exact. A case is made step by step (method, options, operands), then
   evaluated: the methods with several stages (sign-elected sums, regions, dropout) stage by stage. Values are integers, results are
   sets of allowed tuples of rationals <<numerator, denominator>>; options are in eighths. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Methods, Span, MaxN, MinN, MaxArgs, Alphas, Fractions, Offsets, Widths, MaxShift, Equal

VARIABLES pc, m, o, n, args, outs, kept, elected
vars == <<pc, m, o, n, args, outs, kept, elected>>

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
R(p, q) == IF q < 0 THEN <<-p, -q>> ELSE <<p, q>>
Leq(x, y) == x[1] * y[2] <= y[1] * x[2]
Eq(x, y) == x[1] * y[2] = y[1] * x[2]
Zero == <<0, 1>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Map(f(_)) == [i \in 1..n |-> f(i)]
Col(i) == [j \in 1..Len(args) |-> args[j][i]]

Unused == [al |-> 8, k |-> 8, w |-> 8, off |-> 0, sgn |-> FALSE, p |-> 0, st |-> 0, ov |-> 8, resc |-> TRUE, scalar |-> FALSE, stock |-> FALSE, median |-> FALSE]
Pairs == {"weighted_sum", "add_difference", "subtract", "tensor_sum", "top_k_tensor_sum", "select_max_delta", "perpendicular_component", "crossover", "slerp", "geometric_sum", "add_cosine_a", "add_cosine_b", "rotate"}
Masks == {"train_difference_mask", "add_opposite_mask", "add_strict_opposite_mask"}
Triples == Masks \cup {"multiply_quotient"}
Votes == {"ties_sum", "ties_sum_extended"}
WithAlpha == {"weighted_sum", "add_difference", "select_max_delta", "slerp", "add_cosine_a", "add_cosine_b"} \cup Triples
Arity == IF m \in Pairs THEN {2} ELSE IF m \in Triples THEN {3} ELSE IF m = "clamp" THEN 2..MaxArgs ELSE IF m = "model_stock" THEN {2} ELSE IF m = "truncate_rank" THEN {1} ELSE 1..MaxArgs

Init == pc = "method" /\ m = "" /\ o = Unused /\ n = 0 /\ args = <<>> /\ outs = {} /\ kept = <<>> /\ elected = <<>>
ChooseMethod == /\ pc = "method" /\ m' \in Methods /\ n' \in MinN..MaxN /\ pc' = "options" /\ UNCHANGED <<o, args, outs, kept, elected>>
ChooseOptions == /\ pc = "options" /\ pc' = "args"
  /\ (CASE m \in WithAlpha -> (\E al \in Alphas \cup (IF m = "add_difference" THEN {-4} ELSE {}) : (m = "select_max_delta" => al <= 8) /\ o' = [o EXCEPT !.al = al])
       [] m = "clamp" -> (\E s \in {0, 2, 4, 8} : o' = [o EXCEPT !.st = s])
       [] m \in {"tensor_sum", "top_k_tensor_sum"} -> (\E w \in Widths, f \in Offsets, dw \in {0, MaxShift}, df \in {0, MaxShift, 3 * MaxShift}, z \in BOOLEAN : o' = [o EXCEPT !.w = w - dw, !.off = f - df, !.scalar = z /\ n = 1 /\ m = "tensor_sum"])
       [] m = "ties_sum_extended" -> (\E k \in Fractions, s \in BOOLEAN, t \in BOOLEAN, d \in BOOLEAN : o' = [o EXCEPT !.k = k, !.sgn = s, !.stock = t, !.median = d])
       [] m \in Votes -> (\E k \in Fractions, s \in BOOLEAN : o' = [o EXCEPT !.k = k, !.sgn = s])
       [] m = "ties_sum_with_dropout" -> (\E k \in Fractions, s \in BOOLEAN, p \in {0, 4, 8}, r \in BOOLEAN : o' = [o EXCEPT !.k = k, !.sgn = s, !.p = p, !.resc = r])
       [] m = "dropout" -> (\E p \in {0, 2, 4, 6, 8}, ov \in {0, 4, 8, 16}, r \in BOOLEAN : o' = [o EXCEPT !.p = p, !.ov = ov, !.resc = r])
       [] m = "truncate_rank" -> (\E k \in {2, 4, 8} : o' = [o EXCEPT !.k = k])
       [] m = "rotate" -> (\E k \in {0, 8, 16}, al \in Alphas : o' = [o EXCEPT !.k = k, !.al = al])
       [] m = "geometric_sum" -> (\E al \in {0, 4, 8} : o' = [o EXCEPT !.al = al])
       [] m = "crossover" -> (\E al \in {0, 8} : o' = [o EXCEPT !.al = al])
       [] OTHER -> o' = o)
  /\ UNCHANGED <<m, n, args, outs, kept, elected>>
NewArg == /\ pc = "args" /\ (args # <<>> => Len(args[Len(args)]) = n) /\ Len(args) < SetMax(Arity)
          /\ args' = Append(args, <<>>) /\ UNCHANGED <<pc, m, o, n, outs, kept, elected>>
Value == /\ pc = "args" /\ args # <<>> /\ (m = "rotate" => Len(args) = 1) /\ Len(args[Len(args)]) < n
         /\ \E v \in -Span..Span : args' = [args EXCEPT ![Len(args)] = Append(@, v)]
         /\ UNCHANGED <<pc, m, o, n, outs, kept, elected>>
\* an operand that agrees with the first one
Same == /\ pc = "args" /\ Equal /\ m # "rotate" /\ Len(args) > 1 /\ Len(args[Len(args)]) = 0 /\ n > 0 /\ args' = [args EXCEPT ![Len(args)] = args[1]] /\ UNCHANGED <<pc, m, o, n, outs, kept, elected>>
\* three rows of two columns, turned by a signed permutation and moved
Turns == {<<<<x, 0>>, <<0, y>>>> : x, y \in {-1, 1}} \cup {<<<<0, x>>, <<y, 0>>>> : x, y \in {-1, 1}}
At(s, r, c) == s[2 * (r - 1) + c]
Row(i) == (i + 1) \div 2
Column(i) == 2 - (i % 2)
Turned(s, t) == [i \in 1..6 |-> At(s, Row(i), 1) * t[1][Column(i)] + At(s, Row(i), 2) * t[2][Column(i)]]
Turn == /\ pc = "args" /\ m = "rotate" /\ Len(args) = 2 /\ args[2] = <<>> /\ n = 6
        /\ \E t \in Turns, x \in 0..1, y \in 0..1 : args' = [args EXCEPT ![2] = [i \in 1..6 |-> Turned(args[1], t)[i] + (IF Column(i) = 1 THEN x ELSE -y)]]
        /\ UNCHANGED <<pc, m, o, n, outs, kept, elected>>
Ready == /\ pc = "args" /\ Len(args) \in Arity /\ Len(args[Len(args)]) = n
         /\ pc' = CASE m \in Votes -> "trim" [] m = "ties_sum_with_dropout" -> "drop" [] m = "dropout" -> "drop" [] OTHER -> "compute"
         /\ kept' = args /\ UNCHANGED <<m, o, n, args, outs, elected>>

---------------------------------------------------------------------------
\* elementwise methods
WeightedSum(i) == R((8 - o.al) * args[1][i] + o.al * args[2][i], 8)
Average(i) == R(Sum(Col(i)), Len(args))
AddDifference(i) == R(8 * args[1][i] + o.al * args[2][i], 8)
Subtract(i) == R(args[1][i] - args[2][i], 1)
\* bounds: those next to the average count as much as the stiffness says
Bounds(i) == [j \in 1..(Len(args) - 1) |-> args[j + 1][i]]
BoundSet(i) == {Bounds(i)[j] : j \in 1..(Len(args) - 1)}
Upper(i) == LET b == Bounds(i) IN R((8 - o.st) * SetMax(BoundSet(i)) + o.st * SetMin({x \in BoundSet(i) : x * Len(b) >= Sum(b)}), 8)
Lower(i) == LET b == Bounds(i) IN R((8 - o.st) * SetMin(BoundSet(i)) + o.st * SetMax({x \in BoundSet(i) : x * Len(b) <= Sum(b)}), 8)
ClampTo(x, lo, hi) == LET y == IF Leq(x, lo) THEN lo ELSE x IN IF Leq(hi, y) THEN hi ELSE y
Clamp(i) == ClampTo(R(args[1][i], 1), Lower(i), Upper(i))
Quotient(p, q, f, g) == IF q = 0 THEN Zero ELSE R(f * p, g * q)
TrainDifference(i) == LET a == args[1][i] b == args[2][i] c == args[3][i] IN Quotient(Abs(b - a), Abs(b - a) + Abs(b - c), o.al * 9, 40)
Opposite(i) == LET a == args[1][i] b == args[2][i] c == args[3][i] IN Quotient(Abs(a - b), Abs(a - b) + Abs(a + b - 2 * c), o.al, 4)
StrictOpposite(i) == LET a == args[1][i] b == args[2][i] c == args[3][i] t == Max2(Abs(a - c), Abs(b - c)) IN Quotient(Max2((c - a) * (b - c), 0), t * t, o.al, 4)
Dot(x, y) == Sum([i \in 1..n |-> x[i] * y[i]])
Perpendicular(i) == LET d == Dot(args[1], args[1]) IN R(args[2][i] * d - args[1][i] * Dot(args[1], args[2]), d)
\* distance from the mean in units of the deviation, squared: <<numerator, denominator>>
Deviation(s, i) == LET q == n * Dot(s, s) - Sum(s) * Sum(s) IN IF n < 2 \/ q = 0 THEN Zero ELSE <<(n * s[i] - Sum(s)) * (n * s[i] - Sum(s)) , q>>
Chosen(i) == LET x == Deviation(args[1], i) y == Deviation(args[2], i) l == (8 - o.al) * (8 - o.al) * x[1] * y[2] r == o.al * o.al * y[1] * x[2]
             IN IF l = r /\ l # 0 THEN {args[1][i], args[2][i]} ELSE IF l >= r THEN {args[1][i]} ELSE {args[2][i]}

\* regions of an axis: fractions are taken modulo the axis, the rounding is to even
RoundEven(p, q) == LET f == p \div q r == p % q IN IF 2 * r < q THEN f ELSE IF 2 * r > q THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1
Width == Min2(Abs(o.w), 8)
Offset == (IF o.w < 0 THEN o.off + o.w ELSE o.off) % 8
Inverted == Width + Offset > 8
From == IF Inverted THEN RoundEven((Width + Offset - 8) * n, 8) ELSE RoundEven(Offset * n, 8)
To == IF Inverted THEN RoundEven(Offset * n, 8) ELSE RoundEven((Width + Offset) * n, 8)
InRegion(i) == IF Inverted THEN ~(From < i /\ i <= To) ELSE From < i /\ i <= To
\* a number is taken as a whole
TensorSum(i) == R(IF (IF o.scalar THEN o.w > 4 ELSE InRegion(i)) THEN args[2][i] ELSE args[1][i], 1)
\* rearranging a like b; a region of the magnitudes of a decides which entries are rearranged
Rank(s, i) == Cardinality({j \in 1..n : s[j] < s[i] \/ (s[j] = s[i] /\ j <= i)})
Sorted(s) == [k \in 1..n |-> s[CHOOSE i \in 1..n : Rank(s, i) = k]]
Magnitude(k) == LET a == Sorted([i \in 1..n |-> Abs(args[1][i])]) IN IF k <= 0 THEN -1 ELSE a[k]
Rearranged(i) == LET x == Sorted(args[1])[Rank(args[2], i)] inside == Magnitude(From) <= Abs(x) /\ Abs(x) <= Magnitude(To)
                 IN IF From > 0 /\ Abs(x) = Magnitude(From) THEN {x, args[1][i]} ELSE IF inside # Inverted THEN {x} ELSE {args[1][i]}

\* direction agreement of two vectors, when the norms are whole
IsSquare(x) == \E r \in 0..x : r * r = x
Root(x) == CHOOSE r \in 0..x : r * r = x
StockDefined == LET p == Dot(args[1], args[1]) * Dot(args[2], args[2]) IN p > 0 /\ IsSquare(p) /\ Root(p) + Dot(args[1], args[2]) # 0
\* t = 2 cos / (1 + cos), the result is t times the average
Stock(i) == LET c == Dot(args[1], args[2]) q == Root(Dot(args[1], args[1]) * Dot(args[2], args[2])) IN R(c * (args[1][i] + args[2][i]), q + c)

Cosine == <<Dot(args[1], args[2]), Root(Dot(args[1], args[1]) * Dot(args[2], args[2]))>>
CosineDefined == LET p == Dot(args[1], args[1]) * Dot(args[2], args[2]) IN p > 0 /\ IsSquare(p)
\* the more alike, the less of b
AddCosine(i) == LET c == Cosine x == Min2(Max2(8 * c[1] - o.al * c[2], 0), 8 * c[2]) IN R(x * args[1][i] + (8 * c[2] - x) * args[2][i], 8 * c[2])
Parallel == \E p, q \in 1..Span : \A i \in 1..n : p * args[1][i] = q * args[2][i]
\* principal powers
GeometricDefined == \A i \in 1..n : args[1][i] # 0 /\ args[2][i] # 0 /\ (o.al = 4 => IsSquare(Abs(args[1][i] * args[2][i])))
Geometric(i) == LET a == args[1][i] b == args[2][i] IN
  IF o.al = 0 THEN R(a, 1) ELSE IF o.al = 8 THEN R(b, 1) ELSE IF Sgn(a) # Sgn(b) THEN Zero ELSE R(Sgn(a) * Root(a * b), 1)
\* a is multiplied by b / c where they moved away from c on different sides, by as much as they did
SameSide(i) == (Abs(args[1][i]) - Abs(args[3][i])) * (Abs(args[2][i]) - Abs(args[3][i])) >= 0
QuotientDefined == \A i \in 1..n :
  (\A j \in 1..3 : args[j][i] # 0) /\ (SameSide(i) \/ o.al = 0 \/ (o.al = 8 /\ Abs(args[1][i] * args[2][i]) = args[3][i] * args[3][i]))
Multiplied(i) == IF SameSide(i) \/ o.al = 0 THEN R(args[1][i], 1) ELSE R(args[1][i] * args[2][i], args[3][i])
\* the point with the smallest sum of distances
MedianDefined == Len(args) <= 2 \/ \E v \in {args[j] : j \in 1..Len(args)} : 2 * Cardinality({j \in 1..Len(args) : args[j] = v}) > Len(args)
Median(i) == IF Len(args) <= 2 THEN Average(i) ELSE R((CHOOSE v \in {args[j] : j \in 1..Len(args)} : 2 * Cardinality({j \in 1..Len(args) : args[j] = v}) > Len(args))[i], 1)
\* the turn that takes the rows of a to those of b around their centers is applied k times, the center moves as often
Center3(s, c) == At(s, 1, c) + At(s, 2, c) + At(s, 3, c)
Centered3(s) == [i \in 1..6 |-> 3 * s[i] - Center3(s, Column(i))]
TheTurn == CHOOSE t \in Turns : Turned(Centered3(args[1]), t) = Centered3(args[2])
TurnDefined == n = 6 /\ (\E t \in Turns : Turned(Centered3(args[1]), t) = Centered3(args[2])) /\ LET s == Centered3(args[1]) IN At(s, 1, 1) * At(s, 2, 2) # At(s, 1, 2) * At(s, 2, 1)
Rotated(i) == LET s == Centered3(args[1]) once == Turned(s, TheTurn) x == IF o.k = 0 THEN s ELSE IF o.k = 8 THEN once ELSE Turned(once, TheTurn) t == o.k \div 8
              IN R(x[i] + (1 - t) * Center3(args[1], Column(i)) + t * Center3(args[2], Column(i)), 3)

Singles(f(_)) == {Map(f)}
RECURSIVE Product(_)
Product(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<x>> \o t : x \in Head(ss), t \in Product(Tail(ss))}
Choices(f(_)) == Product([i \in 1..n |-> f(i)])
Rationals(S) == {[i \in 1..n |-> R(s[i], 1)] : s \in S}
Compute == /\ pc = "compute" /\ pc' = "done"
  /\ outs' = (CASE m = "weighted_sum" -> Singles(WeightedSum)
               [] m = "n_average" -> Singles(Average)
               [] m = "add_difference" -> Singles(AddDifference)
               [] m = "subtract" -> Singles(Subtract)
               [] m = "clamp" -> Singles(Clamp)
               [] m = "train_difference_mask" -> Singles(TrainDifference)
               [] m = "add_opposite_mask" -> Singles(Opposite)
               [] m = "add_strict_opposite_mask" -> Singles(StrictOpposite)
               [] m = "perpendicular_component" -> IF Dot(args[1], args[1]) = 0 THEN {} ELSE Singles(Perpendicular)
               [] m = "select_max_delta" -> IF n = 0 THEN {<<>>} ELSE Rationals(Choices(Chosen))
               [] m = "tensor_sum" -> Singles(TensorSum)
               [] m = "top_k_tensor_sum" -> IF n = 0 THEN {<<>>} ELSE Rationals(Choices(Rearranged))
               [] m = "model_stock" -> IF StockDefined THEN Singles(Stock) ELSE {}
               [] m \in {"add_cosine_a", "add_cosine_b"} -> IF CosineDefined THEN Singles(AddCosine) ELSE {}
               [] m = "geometric_sum" -> IF GeometricDefined THEN Singles(Geometric) ELSE {}
               [] m = "multiply_quotient" -> IF QuotientDefined THEN Singles(Multiplied) ELSE {}
               [] m = "geometric_median" -> IF MedianDefined THEN Singles(Median) ELSE {}
               [] m = "truncate_rank" -> IF o.k = 8 \/ (n = 4 /\ args[1][1] * args[1][4] = args[1][2] * args[1][3]) THEN Rationals({args[1]}) ELSE {}
               [] m = "rotate" -> IF TurnDefined THEN Singles(Rotated) ELSE {}
               [] m = "slerp" -> IF o.al \in {0, 8} \/ Parallel THEN Singles(WeightedSum) ELSE {}
               [] m = "crossover" -> {[i \in 1..n |-> R(args[IF o.al = 0 THEN 1 ELSE 2][i], 1)]})
  /\ UNCHANGED <<m, o, n, args, kept, elected>>

---------------------------------------------------------------------------
\* entries of each operand are dropped first
Drop == /\ pc = "drop"
        /\ IF m = "dropout" THEN pc' = "share" ELSE pc' = "trim"
        /\ \E mask \in [1..Len(args) -> SUBSET (1..n)] :
             /\ o.p = 8 => \A j \in 1..Len(args) : mask[j] = {}
             /\ (o.p = 0 /\ (m # "dropout" \/ o.ov = 8)) => \A j \in 1..Len(args) : mask[j] = 1..n
             /\ m = "dropout" /\ o.ov \in {0, 16} => \A i \in 1..n : LET c == Cardinality({j \in 1..Len(args) : i \in mask[j]}) IN c <= 1 /\ (o.p = 0 => c = 1)
             /\ m = "dropout" /\ o.p = 0 => \A i \in 1..n : \E j \in 1..Len(args) : i \in mask[j]
             /\ kept' = [j \in 1..Len(args) |-> [i \in 1..n |-> IF i \in mask[j] THEN args[j][i] ELSE 0]]
             /\ elected' = [i \in 1..n |-> Cardinality({j \in 1..Len(args) : i \in mask[j]})]
        /\ UNCHANGED <<m, o, n, args, outs>>
\* the kept ones are averaged, and scaled by what was kept on average
Share == /\ pc = "share" /\ pc' = "done"
         /\ outs' = {[i \in 1..n |-> LET s == Sum([j \in 1..Len(args) |-> kept[j][i]]) c == Max2(elected[i], 1) IN IF o.resc /\ o.p < 8 THEN R(8 * s, (8 - o.p) * c) ELSE R(s, c)]}
         /\ UNCHANGED <<m, o, n, args, kept, elected>>
\* all but the largest are trimmed; those as large as the smallest of them are kept
Threshold(s) == LET a == Sorted([i \in 1..n |-> Abs(s[i])]) IN a[Max2(((8 - o.k) * n) \div 8, 1)]
Trim == /\ pc = "trim" /\ n > 0 /\ pc' = "elect"
        /\ kept' = [j \in 1..Len(args) |-> [i \in 1..n |-> IF Abs(kept[j][i]) >= Threshold(kept[j]) THEN kept[j][i] ELSE 0]]
        /\ UNCHANGED <<m, o, n, args, outs, elected>>
\* the sign of an entry is elected by the values or by their signs
Elect == /\ pc = "elect" /\ pc' = "agree"
         /\ elected' = [i \in 1..n |-> Sgn(Sum([j \in 1..Len(args) |-> IF o.sgn THEN kept[j][i] ELSE Sgn(kept[j][i])]))]
         /\ UNCHANGED <<m, o, n, args, outs, kept>>
\* those that agree with it are averaged
Agree == /\ pc = "agree" /\ pc' = "done"
         /\ LET J(i) == {j \in 1..Len(args) : Sgn(kept[j][i]) = elected[i]}
                f == [j \in 1..Len(args) |-> [i \in 1..n |-> IF j \in J(i) THEN kept[j][i] ELSE 0]]
                s(i) == Sum([j \in 1..Len(args) |-> f[j][i]])
                c == Dot(f[1], f[2]) qq == Dot(f[1], f[1]) * Dot(f[2], f[2])
            IN outs' = IF o.median THEN (IF Len(args) <= 2 THEN {[i \in 1..n |-> R(s(i), Len(args))]} ELSE {})
                       ELSE IF o.stock THEN (IF Len(args) # 2 \/ ~IsSquare(qq) \/ (qq > 0 /\ Root(qq) + c = 0) THEN {}
                                             ELSE {[i \in 1..n |-> IF qq = 0 THEN Zero ELSE R(2 * c * s(i), (Root(qq) + c) * Max2(Cardinality(J(i)), 1))]})
                       ELSE {[i \in 1..n |-> IF J(i) = {} THEN Zero ELSE IF m = "ties_sum_with_dropout" /\ o.p < 8 /\ o.resc THEN R(8 * s(i), (8 - o.p) * Cardinality(J(i))) ELSE R(s(i), Cardinality(J(i)))]}
         /\ UNCHANGED <<m, o, n, args, kept, elected>>
Next == ChooseMethod \/ ChooseOptions \/ NewArg \/ Value \/ Same \/ Turn \/ Ready \/ Compute \/ Drop \/ Share \/ Trim \/ Elect \/ Agree
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Done == pc = "done"
Every(P(_, _)) == Done => \A s \in outs : \A i \in 1..n : P(s[i], i)
OfShape == Done => \A s \in outs : Len(s) = n
Hull(x, i) == LET c == Col(i) S == {c[j] : j \in 1..Len(args)} IN Leq(R(SetMin(S), 1), x) /\ Leq(x, R(SetMax(S), 1))
\* averages, choices and interpolations stay between their operands
Between == m \in {"n_average", "tensor_sum", "select_max_delta", "crossover"} \/ (m = "weighted_sum" /\ o.al \in 0..8) => Every(Hull)
Interpolates == m = "weighted_sum" /\ Done => \A s \in outs : (o.al = 0 => \A i \in 1..n : Eq(s[i], R(args[1][i], 1))) /\ (o.al = 8 => \A i \in 1..n : Eq(s[i], R(args[2][i], 1)))
\* a + (b - a) = b
Inverse == m = "subtract" => Every(LAMBDA x, i : Eq(R(8 * args[2][i] * x[2] + 8 * x[1], 8 * x[2]), R(args[1][i], 1)))
WithinBounds == m = "clamp" => Every(LAMBDA x, i : Leq(R(SetMin(BoundSet(i)), 1), x) /\ Leq(x, R(SetMax(BoundSet(i)), 1)) /\ Eq(ClampTo(x, Lower(i), Upper(i)), x))
UntouchedWithin == m = "clamp" => Every(LAMBDA x, i : Leq(Lower(i), R(args[1][i], 1)) /\ Leq(R(args[1][i], 1), Upper(i)) => Eq(x, R(args[1][i], 1)))
\* masks are fractions of the strength
MaskRange == m \in Masks /\ o.al >= 0 => Every(LAMBDA x, i : Leq(Zero, x) /\ Leq(x, R(IF m = "train_difference_mask" THEN 9 * o.al ELSE 10 * o.al, 40)))
\* nothing is added where b is no farther from c than a is on the same side
StrictOnly == m = "add_strict_opposite_mask" => Every(LAMBDA x, i : (args[1][i] - args[3][i]) * (args[2][i] - args[3][i]) >= 0 => Eq(x, Zero))
\* as many entries as the width says, up to rounding, one after the other on the ring
RegionSize == Done /\ m = "tensor_sum" => LET c == Cardinality({i \in 1..n : InRegion(i)}) IN Abs(8 * c - Width * n) <= 8
RegionWhole == Done /\ m = "tensor_sum" => (Width = 8 => \A i \in 1..n : InRegion(i)) /\ (Width = 0 => \A i \in 1..n : ~InRegion(i))
Ring(i) == IF i = n THEN 1 ELSE i + 1
RegionConnected == Done /\ m = "tensor_sum" /\ n > 0 => Cardinality({i \in 1..n : InRegion(i) # InRegion(Ring(i))}) <= 2
\* only the elected sign survives; alone, a delta is just trimmed
OneSign == Done /\ m \in Votes => \A s \in outs : \A i \in 1..n : Sgn(s[i][1]) \in {0, elected[i]}
Alone == Done /\ m \in Votes /\ Len(args) = 1 => \A s \in outs : \A i \in 1..n : s[i][1] = 0 \/ Eq(s[i], R(args[1][i], 1))
TopKept == Done /\ m \in Votes => \A j \in 1..Len(args) : 8 * Cardinality({i \in 1..n : Abs(args[j][i]) > 0 => kept[j][i] # 0}) >= o.k * n
LargestFirst == Done /\ m \in Votes => \A j \in 1..Len(args), i, h \in 1..n : kept[j][h] # 0 /\ Abs(args[j][i]) >= Abs(args[j][h]) => kept[j][i] = args[j][i]
NothingDropped == Done /\ m = "dropout" /\ o.p = 0 /\ o.ov = 8 => \A s \in outs : \A i \in 1..n : Eq(s[i], R(Sum(Col(i)), Len(args)))
AllDropped == o.p = 8 => Every(LAMBDA x, i : Eq(x, Zero))
Orthogonal == Done /\ m = "perpendicular_component" => \A s \in outs : n > 0 => LET q == s[1][2] IN Sum([i \in 1..n |-> args[1][i] * s[i][1]]) = 0
\* turning by nothing, and once
TurnEnds == Done /\ m = "rotate" => \A s \in outs : \A i \in 1..n : (o.k = 0 => Eq(s[i], R(args[1][i], 1))) /\ (o.k = 8 => Eq(s[i], R(args[2][i], 1)))
StockAgrees == Done /\ m = "model_stock" /\ args[1] = args[2] => \A s \in outs : \A i \in 1..n : Eq(s[i], R(args[1][i], 1))
Emit == (Done /\ outs # {}) => CSVWrite("%1$s", <<ToJson([m |-> m, o |-> o, n |-> n, args |-> args, outs |-> outs])>>, IOEnv.OUT)
\* cases of methods that drop entries at random; AlgebraJudge explains the results
Draw == pc = "drop" => CSVWrite("%1$s", <<ToJson([m |-> m, o |-> o, n |-> n, args |-> args])>>, IOEnv.OUT)
=============================================================================
