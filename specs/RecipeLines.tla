----------------------------- MODULE RecipeLines -----------------------------
(* Recipe texts, instruction by instruction: what every instruction means, which ones are errors, and the canonical text of a recipe.

   A text is a header and a sequence of instructions over tokens. Reading it goes through the instructions in order and collects
   results (terms); an instruction may only refer to results of earlier ones. The meaning of a text is the term of its last instruction.
   The canonical text of a term has one instruction for every different part of it, in order of first use.
   Verdicts: "ok", "reject", or "open" where the format does not say. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Mode,          \* "terms": texts that mean a recipe;  "text": the same with mutations;  "judge": texts recorded elsewhere
          MinLines, MaxLines, MaxArgs, MaxMut, Strs, Nums   \* Strs: strings used as values; Nums: numbers

VARIABLES header, lines, draft, muts, phase, text
vars == <<header, lines, draft, muts, phase, text>>

Methods == [vt_one |-> [pos |-> <<"a">>, req |-> 1, var |-> FALSE, kwreq |-> {}, kwopt |-> {}],
            vt_opt |-> [pos |-> <<"a", "b">>, req |-> 1, var |-> FALSE, kwreq |-> {}, kwopt |-> {}],
            vt_kw  |-> [pos |-> <<"a">>, req |-> 1, var |-> FALSE, kwreq |-> {"x"}, kwopt |-> {"y"}],
            vt_two |-> [pos |-> <<"a">>, req |-> 0, var |-> FALSE, kwreq |-> {"x", "zz"}, kwopt |-> {"y"}],
            vt_var |-> [pos |-> <<>>, req |-> 0, var |-> TRUE, kwreq |-> {}, kwopt |-> {"y"}]]
Configs == {"vt-x", "vt-y"}
Spaces == {"weight", "delta", "param"}
Keys == {"k1", "k2", "k3"}

Tok(t, v) == [t |-> t, v |-> v]      \* t: str num const ref bad
Vals == {Tok("num", n) : n \in Nums} \cup {Tok("const", c) : c \in {"null", "true", "false"}}
Arg(kw, tok) == [kw |-> kw, tok |-> tok]
Line(cmd, args) == [cmd |-> cmd, args |-> args]

(* --- terms ---------------------------------------------------------------------------------------------------------------- *)
Term(k, h, cfg, space, args, kws) == [k |-> k, h |-> h, cfg |-> cfg, space |-> space, args |-> args, kws |-> kws]
ValT(tok) == Term("val", tok, "null", "param", <<>>, <<>>)
DictT(items) == Term("dict", Tok("", ""), "null", "param", <<>>, items)
LitT(v, cfg, space) == Term("lit", Tok("", ""), cfg, space, <<v>>, <<>>)
ModelT(path, cfg, space) == Term("model", Tok("str", path), cfg, space, <<>>, <<>>)
MergeT(m, args, kws) == Term("merge", Tok("str", m), "vt-x", "weight", args, kws)    \* the methods declare what they return
IsNode(x) == x.k \in {"lit", "model", "merge"}
NodeDict(x) == x.k = "dict" /\ x.kws # <<>> /\ \A j \in 1..Len(x.kws) : IsNode(x.kws[j].v)
ValueDict(x) == x.k = "dict" /\ \A j \in 1..Len(x.kws) : x.kws[j].v.k = "val"
Type(tok) == IF tok.t = "const" THEN (IF tok.v = "null" THEN "null" ELSE "bool") ELSE tok.t
Mixed(x) == ValueDict(x) /\ \E i, j \in 1..Len(x.kws) : Type(x.kws[i].v.h) # Type(x.kws[j].v.h)
None == Term("none", Tok("", ""), "", "", <<>>, <<>>)
Res(v, x) == [verdict |-> v, term |-> x]
Reject == Res("reject", None)
Open == Res("open", None)

(* a literal of value v with the given attributes ("" when not given) *)
MakeLit(v, cfg, space) ==
  IF IsNode(v) \/ Mixed(v) THEN Open
  ELSE IF v.k = "val" \/ ValueDict(v) THEN Res("ok", LitT(v, IF cfg = "" THEN "null" ELSE cfg, IF space \in {"", "null"} THEN "param" ELSE space))
  ELSE IF ~NodeDict(v) THEN Open
  ELSE LET f == v.kws[1].v
           c == IF cfg \in {"", "null"} THEN f.cfg ELSE cfg
           s == IF space \in {"", "null"} THEN f.space ELSE space
       IN IF \E j \in 1..Len(v.kws) : v.kws[j].v.cfg # c \/ v.kws[j].v.space # f.space THEN Reject ELSE Res("ok", LitT(v, c, s))

(* --- reading ---------------------------------------------------------------------------------------------------------------- *)
Digit(v) == CHOOSE n \in 0..99 : ToString(n) = v
IsIndex(v) == \E n \in 0..99 : ToString(n) = v
TokOK(tok, n) == tok.t \in {"str", "num", "const"} \/ (tok.t = "ref" /\ IsIndex(tok.v) /\ Digit(tok.v) < n)
Value(tok, env) == IF tok.t = "ref" THEN env[Digit(tok.v) + 1] ELSE ValT(tok)
Positional(l) == SelectSeq(l.args, LAMBDA a : a.kw = "")
Keyword(l) == SelectSeq(l.args, LAMBDA a : a.kw # "")
Kws(l) == {Keyword(l)[j].kw : j \in 1..Len(Keyword(l))}
Given(l, k) == (CHOOSE j \in 1..Len(l.args) : l.args[j].kw = k)
Attr(l, k) == IF k \notin Kws(l) THEN "" ELSE LET tok == l.args[Given(l, k)].tok IN IF tok = Tok("const", "null") THEN "null" ELSE IF tok.t = "str" THEN tok.v ELSE "?"
LateArg(l) == \E i, j \in 1..Len(l.args) : i < j /\ l.args[i].kw # "" /\ l.args[j].kw = ""
Named(f, seq) == [j \in 1..Len(seq) |-> [n |-> seq[j].kw, v |-> f[j]]]

BadArgs(l, n) == \/ \E j \in 1..Len(l.args) : ~TokOK(l.args[j].tok, n)
                 \/ \E i, j \in 1..Len(l.args) : i < j /\ l.args[i].kw # "" /\ l.args[i].kw = l.args[j].kw

ReadDict(l, env) ==
  IF Positional(l) # <<>> THEN Reject
  ELSE Res("ok", DictT([j \in 1..Len(l.args) |-> [n |-> l.args[j].kw, v |-> Value(l.args[j].tok, env)]]))

ReadModel(l) ==
  LET p == Positional(l) IN
  IF Len(p) # 1 \/ p[1].tok.t # "str" \/ ~(Kws(l) \subseteq {"model_config", "merge_space"})
     \/ Attr(l, "model_config") \notin Configs \cup {"", "null"} \/ Attr(l, "merge_space") \notin Spaces \cup {""} THEN Reject
  ELSE Res("ok", ModelT(p[1].tok.v, IF Attr(l, "model_config") = "" THEN "null" ELSE Attr(l, "model_config"),
                                    IF Attr(l, "merge_space") = "" THEN "weight" ELSE Attr(l, "merge_space")))

ReadLiteral(l, env) ==
  LET p == Positional(l) IN
  IF "value" \in Kws(l) THEN Open
  ELSE IF Len(p) # 1 \/ ~(Kws(l) \subseteq {"model_config", "merge_space"})
     \/ Attr(l, "model_config") \notin Configs \cup {"", "null"} \/ Attr(l, "merge_space") \notin Spaces \cup {"", "null"} THEN Reject
  ELSE MakeLit(Value(p[1].tok, env), Attr(l, "model_config"), Attr(l, "merge_space"))

AsNode(x) == IF IsNode(x) THEN Res("ok", x) ELSE MakeLit(x, "", "")
Worst(S) == IF \E r \in S : r.verdict = "reject" THEN "reject" ELSE IF \E r \in S : r.verdict = "open" THEN "open" ELSE "ok"
ReadMerge(l, env) ==
  LET p == Positional(l)
      k == Keyword(l)
      m == p[1].tok.v
      s == Methods[m]
      n == Len(p) - 1
      bound == {s.pos[j] : j \in 1..(IF n < Len(s.pos) THEN n ELSE Len(s.pos))}
      names == {s.pos[j] : j \in 1..Len(s.pos)}
      need == {s.pos[j] : j \in 1..s.req} \cup s.kwreq
      args == [j \in 1..n |-> AsNode(Value(p[j + 1].tok, env))]
      kws == [j \in 1..Len(k) |-> AsNode(Value(k[j].tok, env))]
      w == Worst({args[j] : j \in 1..n} \cup {kws[j] : j \in 1..Len(k)})
  IN IF p = <<>> \/ p[1].tok.t # "str" THEN Reject
     ELSE IF m \notin DOMAIN Methods THEN Reject
     ELSE IF (n > Len(s.pos) /\ ~s.var) \/ ~(Kws(l) \subseteq (names \ bound) \cup s.kwreq \cup s.kwopt) \/ ~(need \subseteq bound \cup Kws(l)) THEN Reject
     ELSE IF w # "ok" THEN Res(w, None)
     \* a parameter with a default value is a parameter in param space, given by position or by name
     ELSE IF \/ \E j \in 1..Len(k) : (k[j].kw \in s.kwopt \/ k[j].kw \in {s.pos[i] : i \in (s.req + 1)..Len(s.pos)}) /\ kws[j].term.space # "param"
             \/ \E j \in 1..n : j > s.req /\ j <= Len(s.pos) /\ args[j].term.space # "param" THEN Reject
     ELSE IF \E x \in {args[j].term : j \in 1..n} \cup {kws[j].term : j \in 1..Len(k)} : x.cfg = "vt-y" THEN Open     \* another config than the result: an error, but when asked for it
     ELSE Res("ok", MergeT(m, [j \in 1..n |-> args[j].term], Named([j \in 1..Len(k) |-> kws[j].term], k)))

ReadLine(l, env) ==
  IF l.cmd \notin {"model", "literal", "dict", "merge"} \/ BadArgs(l, Len(env)) THEN Reject
  ELSE IF LateArg(l) THEN Open
  ELSE CASE l.cmd = "dict" -> ReadDict(l, env)
         [] l.cmd = "model" -> ReadModel(l)
         [] l.cmd = "literal" -> ReadLiteral(l, env)
         [] OTHER -> ReadMerge(l, env)

Silent(l) == l.cmd \in {"", "#"}     \* blank lines and comments
RECURSIVE ReadAll(_, _, _)
ReadAll(ls, j, env) ==
  IF j > Len(ls) THEN (IF env = <<>> THEN Reject ELSE IF IsNode(env[Len(env)]) THEN Res("ok", env[Len(env)]) ELSE Open)
  ELSE IF Silent(ls[j]) THEN ReadAll(ls, j + 1, env)
  ELSE LET r == ReadLine(ls[j], env) IN IF r.verdict # "ok" THEN r ELSE ReadAll(ls, j + 1, Append(env, r.term))
ReadText(h, ls) == IF h # "ok" THEN Reject ELSE ReadAll(ls, 1, <<>>)

RECURSIVE EnvOf(_, _, _)     \* the results of a prefix without errors
EnvOf(ls, j, env) == IF j > Len(ls) THEN env ELSE IF Silent(ls[j]) THEN EnvOf(ls, j + 1, env) ELSE EnvOf(ls, j + 1, Append(env, ReadLine(ls[j], env).term))

(* --- the canonical text -------------------------------------------------------------------------------------------------------- *)
Plus(ins, l) == IF \E j \in 1..Len(ins) : ins[j] = l
                THEN [ins |-> ins, tok |-> Tok("ref", ToString((CHOOSE j \in 1..Len(ins) : ins[j] = l) - 1))]
                ELSE [ins |-> Append(ins, l), tok |-> Tok("ref", ToString(Len(ins)))]
CfgTok(c) == IF c = "null" THEN Tok("const", "null") ELSE Tok("str", c)
Attrs(x) == <<Arg("model_config", CfgTok(x.cfg)), Arg("merge_space", Tok("str", x.space))>>
RECURSIVE Write(_, _, _), WriteSeq(_, _, _, _)
(* whole: a literal is written as an instruction, even if it carries nothing but its value *)
Write(x, ins, whole) ==
  CASE x.k = "val" -> [ins |-> ins, tok |-> x.h]
    [] x.k = "model" -> Plus(ins, Line("model", <<Arg("", x.h)>> \o Attrs(x)))
    [] x.k = "lit" /\ ~whole /\ x.cfg = "null" /\ x.space = "param" /\ ~NodeDict(x.args[1]) -> Write(x.args[1], ins, FALSE)
    [] x.k = "lit" -> LET w == Write(x.args[1], ins, FALSE) IN Plus(w.ins, Line("literal", <<Arg("", w.tok)>> \o Attrs(x)))
    [] x.k = "dict" -> LET w == WriteSeq(x.kws, ins, <<>>, TRUE) IN Plus(w.ins, Line("dict", w.args))
    [] OTHER -> LET a == WriteSeq([j \in 1..Len(x.args) |-> [n |-> "", v |-> x.args[j]]], ins, <<Arg("", x.h)>>, FALSE)
                    b == WriteSeq(x.kws, a.ins, a.args, FALSE)
                IN Plus(b.ins, Line("merge", b.args))
WriteSeq(items, ins, acc, whole) ==
  IF items = <<>> THEN [ins |-> ins, args |-> acc]
  ELSE LET w == Write(Head(items).v, ins, whole) IN WriteSeq(Tail(items), w.ins, Append(acc, Arg(Head(items).n, w.tok)), whole)
Canon(x) == Write(x, <<>>, TRUE).ins

(* --- generation ------------------------------------------------------------------------------------------------------------------ *)
NoDraft == Line("none", <<>>)
Recorded == IF Mode = "judge" THEN ndJsonDeserialize(IOEnv.TRACES) ELSE <<>>
Init == IF Mode = "judge"
        THEN \E j \in 1..Len(Recorded) : /\ text = j /\ header = Recorded[j].header /\ lines = Recorded[j].lines
                                          /\ draft = NoDraft /\ muts = 0 /\ phase = "done"
        ELSE text = 0 /\ header = "ok" /\ lines = <<>> /\ draft = NoDraft /\ muts = 0 /\ phase = "write"

Env == EnvOf(lines, 1, <<>>)
Count == Len(SelectSeq(lines, LAMBDA l : ~Silent(l)))
RefsTo(P(_)) == {Tok("ref", ToString(j - 1)) : j \in {i \in 1..Len(Env) : P(Env[i])}}
Plain == {Tok("str", s) : s \in Strs} \cup Vals
Opt(name, toks) == IF \E j \in 1..Len(draft.args) : draft.args[j].kw = name THEN {} ELSE {Arg(name, t) : t \in toks}
AttrArgs == Opt("model_config", {Tok("const", "null"), Tok("str", "vt-x"), Tok("str", "vt-y")})
            \cup Opt("merge_space", {Tok("str", s) : s \in Spaces})
DictFree == {k \in Keys : \A j \in 1..Len(draft.args) : draft.args[j].kw # k}
DictVals == IF draft.args = <<>> THEN Plain \cup RefsTo(IsNode)
            ELSE IF draft.args[1].tok.t = "ref" THEN RefsTo(LAMBDA x : IsNode(x) /\ x.cfg = Value(draft.args[1].tok, Env).cfg /\ x.space = Value(draft.args[1].tok, Env).space)
            ELSE {t \in Plain : Type(t) = Type(draft.args[1].tok)}
MergeVals == Plain \cup RefsTo(LAMBDA x : TRUE)
MergeArgs ==
  LET m == draft.args[1].tok.v
      s == Methods[m]
      n == Len(Positional(draft)) - 1
      bound == {s.pos[j] : j \in 1..(IF n < Len(s.pos) THEN n ELSE Len(s.pos))}
      free == (({s.pos[j] : j \in 1..Len(s.pos)} \ bound) \cup s.kwreq \cup s.kwopt) \ Kws(draft)
  IN (IF Keyword(draft) = <<>> /\ (s.var \/ n < Len(s.pos)) THEN {Arg("", t) : t \in MergeVals} ELSE {})
     \cup {Arg(k, t) : k \in free, t \in MergeVals}
Choices ==
  CASE draft.cmd = "model" -> IF draft.args = <<>> THEN {Arg("", Tok("str", s)) : s \in Strs} ELSE AttrArgs
    [] draft.cmd = "literal" -> IF draft.args = <<>> THEN {Arg("", t) : t \in Plain \cup RefsTo(LAMBDA x : x.k = "dict")} ELSE AttrArgs
    [] draft.cmd = "dict" -> {Arg(k, t) : k \in DictFree, t \in DictVals}
    [] draft.cmd = "merge" -> IF draft.args = <<>> THEN {Arg("", Tok("str", m)) : m \in DOMAIN Methods} ELSE MergeArgs
    [] OTHER -> {}

Begin == /\ phase = "write" /\ draft = NoDraft /\ Len(lines) < MaxLines
         /\ \E c \in {"model", "literal", "dict", "merge"} : draft' = Line(c, <<>>)
         /\ UNCHANGED <<header, lines, muts, phase, text>>
Silence == /\ phase = "write" /\ draft = NoDraft /\ Len(lines) < MaxLines /\ Mode = "text"
           /\ \E c \in {"", "#"} : lines' = Append(lines, Line(c, <<>>))
           /\ UNCHANGED <<header, draft, muts, phase, text>>
AddArg(C) == /\ phase = "write" /\ Len(draft.args) < MaxArgs
             /\ \E a \in C : draft' = [draft EXCEPT !.args = Append(@, a)]
             /\ UNCHANGED <<header, lines, muts, phase, text>>
UsedIn(ls, j) == \E i \in 1..Len(ls) : \E a \in 1..Len(ls[i].args) : ls[i].args[a].tok = Tok("ref", ToString(j))
AddPlain == AddArg({a \in Choices : a.tok.t # "ref"})
AddRef == AddArg({a \in Choices : a.tok.t = "ref"})
AddNew == AddArg({a \in Choices : a.tok.t = "ref" /\ ~UsedIn(Append(lines, draft), Digit(a.tok.v))})
Close == /\ phase = "write" /\ draft # NoDraft
         /\ ReadLine(draft, Env).verdict = "ok"
         /\ lines' = Append(lines, draft) /\ draft' = NoDraft
         /\ UNCHANGED <<header, muts, phase, text>>
Finish == /\ phase = "write" /\ draft = NoDraft /\ Len(lines) >= MinLines /\ (Mode = "terms" => ReadText(header, lines).verdict = "ok")
          /\ phase' = (IF Mode = "text" THEN "mutate" ELSE "done")
          /\ UNCHANGED <<header, lines, draft, muts, text>>

(* mutations of a text *)
OtherToks == Plain \cup {Tok("str", s) : s \in DOMAIN Methods \cup Configs \cup Spaces \cup {"vt_unknown", "vt-unknown"}}
             \cup {Tok("ref", ToString(j)) : j \in 0..MaxLines} \cup {Tok("bad", ToString(j)) : j \in 1..12}
OtherKws == {"", "a", "b", "x", "y", "k1", "model_config", "merge_space", "value", "path", "zz"}
OtherCmds == {"model", "literal", "dict", "merge", "Merge", "models", "dict=", "&0", "null", "", "#"}
Mutate ==
  /\ phase = "mutate" /\ muts < MaxMut
  /\ muts' = muts + 1 /\ UNCHANGED <<draft, phase, text>>
  /\ \/ \E h \in {"missing", "old", "suffix", "case", "late"} : header' = h /\ UNCHANGED lines
     \/ \E j \in 1..Len(lines) :
          /\ UNCHANGED header
          /\ \/ \E c \in OtherCmds : lines' = [lines EXCEPT ![j].cmd = c]
             \/ lines' = [i \in 1..(Len(lines) - 1) |-> IF i < j THEN lines[i] ELSE lines[i + 1]]
             \/ \E i \in 1..Len(lines[j].args) :
                  \/ \E t \in OtherToks : lines' = [lines EXCEPT ![j].args[i].tok = t]
                  \/ \E k \in OtherKws : lines' = [lines EXCEPT ![j].args[i].kw = k]
                  \/ lines' = [lines EXCEPT ![j].args = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
                  \/ lines' = [lines EXCEPT ![j].args = Append(@, @[i])]
             \/ \E t \in OtherToks : lines' = [lines EXCEPT ![j].args = Append(@, Arg("", t))]
             \/ \E k \in OtherKws, t \in OtherToks : lines' = [lines EXCEPT ![j].args = Append(@, Arg(k, t))]
Done == /\ phase = "mutate" /\ phase' = "done" /\ UNCHANGED <<header, lines, draft, muts, text>>
Next == Begin \/ Silence \/ AddPlain \/ AddRef \/ AddNew \/ Close \/ Finish \/ Mutate \/ Done
Spec == Init /\ [][Next]_vars

Final == phase = "done"
Read == ReadText(header, lines)
(* --- properties of the format ------------------------------------------------------------------------------------------------ *)
RoundTrip == Final /\ Read.verdict = "ok" => LET c == Canon(Read.term) IN ReadText("ok", c) = Read
Idempotent == Final /\ Read.verdict = "ok" => LET c == Canon(Read.term) IN Canon(ReadText("ok", c).term) = c
NoRepetition == Final /\ Read.verdict = "ok" => LET c == Canon(Read.term) IN \A i, j \in 1..Len(c) : c[i] = c[j] => i = j
BackwardRefs == Final /\ Read.verdict = "ok" => LET c == Canon(Read.term) IN
  \A i \in 1..Len(c) : \A a \in 1..Len(c[i].args) : c[i].args[a].tok.t = "ref" => Digit(c[i].args[a].tok.v) < i - 1
AllUsed == Final /\ Read.verdict = "ok" => LET c == Canon(Read.term) IN     \* no instruction that nothing refers to, except the last
  \A i \in 1..(Len(c) - 1) : \E j \in (i + 1)..Len(c) : \E a \in 1..Len(c[j].args) : c[j].args[a].tok = Tok("ref", ToString(i - 1))
FirstErrorDecides == Final /\ header = "ok" => \A j \in 1..Len(lines) :
  LET r == ReadAll(SubSeq(lines, 1, j), 1, <<>>) IN
  r.verdict = "reject" /\ (\E i \in 1..j : ~Silent(lines[i])) => Read.verdict = "reject"

Emit == Final =>
  CSVWrite("%1$s", <<ToJson([n |-> text, header |-> header, lines |-> lines, verdict |-> Read.verdict, term |-> Read.term,
                             canon |-> IF Read.verdict = "ok" THEN Canon(Read.term) ELSE <<>>])>>, IOEnv.OUT)
=============================================================================
