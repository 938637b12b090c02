------------------------------- MODULE Lora -------------------------------
(* Low-rank networks. A network has up to three parts for a weight of its base: a product of two small tensors (up composed with down) and a
   number (alpha) that says how strong it is. The network is made step by step; then each weight of the base gets its delta or nothing.
   The configs (keys of the base layouts, whether they are floating-point) are read from a file. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, IOUtils, Json, CSV
CONSTANTS Namings, MaxAdapters, Sizes, Ranks, Kernels, AlphaSet, Seeds, Check

Data == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES pc, base, naming, adapters, deltas
vars == <<pc, base, naming, adapters, deltas>>

Prefix == [n \in {"kohya", "lycoris"} |-> IF n = "kohya" THEN "lora" ELSE "lycoris"]
Joined(s, c) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o c \o b, "", s)
Keys == Data[base].keys
\* weights that a network can have something for: floating-point weights that are not a bias
Weighty(k) == k.float /\ ~k.bias
WithoutWeight(t) == IF t[Len(t)] = "weight" THEN SubSeq(t, 1, Len(t) - 1) ELSE t
Stem(n, t) == Prefix[n] \o "_" \o Joined(WithoutWeight(t), "_")
PartNames == [up |-> "lora_up.weight", down |-> "lora_down.weight", alpha |-> "alpha"]
PartSet == {"up", "down", "alpha"}

\* ---- values: small tensors, from a seed
Value(seed, i) == ((seed * (7 * i + 3) + 5 * i) % 7) - 3
\* sizes: o x r x (1 x 1 kernel) and r x i x kernel
Up(a, o, r) == Value(a.seed, 11 * o + r)
Down(a, r, i, y, x) == Value(a.seed + 1, 23 * r + 5 * i + 3 * y + x)
RECURSIVE Dot(_, _, _, _, _, _)
Dot(a, o, i, y, x, r) == IF r = 0 THEN 0 ELSE Up(a, o, r) * Down(a, r, i, y, x) + Dot(a, o, i, y, x, r - 1)
\* eighths of alpha over the rank
Entry(a, o, i, y, x) == <<a.alpha * Dot(a, o, i, y, x, a.r), 8 * a.r>>
Composed(a) == [o \in 1..a.o |-> [i \in 1..a.i |-> [y \in 1..a.ky |-> [x \in 1..a.kx |-> Entry(a, o, i, y, x)]]]]

Init == pc = "base" /\ base = 0 /\ naming = "" /\ adapters = <<>> /\ deltas = {}
ChooseBase == pc = "base" /\ pc' = "naming" /\ base' \in 1..Len(Data) /\ UNCHANGED <<naming, adapters, deltas>>
ChooseNaming == pc = "naming" /\ pc' = "key" /\ naming' \in Namings /\ UNCHANGED <<base, adapters, deltas>>
New(j) == [key |-> j, parts |-> PartSet, linear |-> TRUE, o |-> 1, i |-> 1, r |-> 1, ky |-> 1, kx |-> 1, alpha |-> 8, seed |-> 0]
Taken == {adapters[x].key : x \in 1..Len(adapters)}
\* one more weight gets an adapter
Adapt == /\ pc = "key" /\ Len(adapters) < MaxAdapters /\ \E j \in 1..Len(Keys) : Weighty(Keys[j]) /\ j \notin Taken /\ adapters' = Append(adapters, New(j))
         /\ pc' = "shape" /\ UNCHANGED <<base, naming, deltas>>
Latest == Len(adapters)
Shape == /\ pc = "shape" /\ pc' = "parts" /\ \E o \in Sizes, i \in Sizes, r \in Ranks, ky \in Kernels, kx \in Kernels, l \in BOOLEAN :
              (l => ky * kx = 1) /\ adapters' = [adapters EXCEPT ![Latest].o = o, ![Latest].i = i, ![Latest].r = r, ![Latest].ky = ky, ![Latest].kx = kx, ![Latest].linear = l]
         /\ UNCHANGED <<base, naming, deltas>>
\* most adapters are whole
Parts == /\ pc = "parts" /\ pc' = "values" /\ \E p \in SUBSET PartSet, whole \in 1..4 : p # {} /\ adapters' = [adapters EXCEPT ![Latest].parts = IF whole > 1 THEN PartSet ELSE p]
         /\ UNCHANGED <<base, naming, deltas>>
Values == /\ pc = "values" /\ pc' = "key" /\ \E a \in AlphaSet, s \in Seeds : adapters' = [adapters EXCEPT ![Latest].alpha = a, ![Latest].seed = s] /\ UNCHANGED <<base, naming, deltas>>
Convert == /\ pc = "key" /\ (Latest = MaxAdapters \/ Check) /\ pc' = "done"
           /\ deltas' = {[key |-> adapters[x].key, of |-> x, value |-> Composed(adapters[x])] : x \in {x \in 1..Latest : adapters[x].parts = PartSet}}
           /\ UNCHANGED <<base, naming, adapters>>
Next == ChooseBase \/ ChooseNaming \/ Adapt \/ Shape \/ Parts \/ Values \/ Convert
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Stems == [b \in 1..Len(Data) |-> LET w == SelectSeq(Data[b].keys, Weighty) IN {Stem("kohya", w[i].t) : i \in 1..Len(w)}]
Weights == [b \in 1..Len(Data) |-> Cardinality({i \in 1..Len(Data[b].keys) : Weighty(Data[b].keys[i])})]
\* no two weights of a base share a name in a network
NamesDistinct == pc = "naming" => Cardinality(Stems[base]) = Weights[base]
OnePerWeight == Cardinality({d.key : d \in deltas}) = Cardinality(deltas)
OnlyWhole == \A d \in deltas : adapters[d.of].parts = PartSet /\ adapters[d.of].key = d.key
NothingForZero == \A d \in deltas : adapters[d.of].alpha = 0 => \A o \in DOMAIN d.value : \A i \in DOMAIN d.value[o] : \A y \in DOMAIN d.value[o][i] : \A x \in DOMAIN d.value[o][i][y] : d.value[o][i][y][x][1] = 0
\* a product of rank one: its 2x2 minors vanish
RankOne == \A d \in deltas : adapters[d.of].r = 1 => \A o \in DOMAIN d.value, p \in DOMAIN d.value : \A i \in DOMAIN d.value[1] , j \in DOMAIN d.value[1] :
             d.value[o][i][1][1][1] * d.value[p][j][1][1][1] = d.value[o][j][1][1][1] * d.value[p][i][1][1][1]
Emit == pc = "done" => CSVWrite("%1$s", <<ToJson([base |-> Data[base].name, naming |-> naming,
          adapters |-> [x \in 1..Latest |-> LET a == adapters[x] IN
             [key |-> Joined(Keys[a.key].t, "."), stem |-> Stem(naming, Keys[a.key].t), parts |-> a.parts, names |-> PartNames, linear |-> a.linear, alpha |-> a.alpha,
              up |-> [o \in 1..a.o |-> [r \in 1..a.r |-> Up(a, o, r)]],
              down |-> [r \in 1..a.r |-> [i \in 1..a.i |-> [y \in 1..a.ky |-> [z \in 1..a.kx |-> Down(a, r, i, y, z)]]]],
              delta |-> IF a.parts = PartSet THEN Composed(a) ELSE <<>>]]])>>, IOEnv.OUT)
\* the whole layout of networks for a base
EmitNames == pc = "key" /\ adapters = <<>> => CSVWrite("%1$s", <<ToJson([base |-> Data[base].name, naming |-> naming, names |-> PartNames,
          weights |-> LET w == SelectSeq(Keys, Weighty) IN [i \in 1..Len(w) |-> [key |-> Joined(w[i].t, "."), stem |-> Stem(naming, w[i].t)]]])>>, IOEnv.OUT)
=============================================================================
