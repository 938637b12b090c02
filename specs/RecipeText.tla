------------------------------ MODULE RecipeText ------------------------------
(* The text form of one recipe instruction, character by character, and the way strings are written.

   Reading is a state machine over the characters; its outcome is a sequence of arguments (optional keyword, kind, text),
   "reject" for text that is not an argument list, or "open" where the format does not say (text glued to a closing quote,
   a backslash outside of quotes, a positional argument after a keyword). Writing quotes a string and escapes it. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Alphabet,    \* characters; Q quote, B backslash, S space, N newline, R carriage return
          MaxLen, Keywords, NResults,
          Mode         \* "write" a string and read it back;  "read" arbitrary arguments;  "line": recorded lines, with their command

VARIABLES text, str, st, buf, kw, items, pos, verdict, id
vars == <<text, str, st, buf, kw, items, pos, verdict, id>>

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE Escape(_)
Escape(s) == IF s = <<>> THEN <<>>
             ELSE (CASE Head(s) = "Q" -> <<"B", "Q">> [] Head(s) = "B" -> <<"B", "B">> [] Head(s) = "N" -> <<"B", "n">> [] Head(s) = "R" -> <<"B", "r">>
                     [] OTHER -> <<Head(s)>>) \o Escape(Tail(s))
Write(s) == <<"Q">> \o Escape(s) \o <<"Q">>

(* --- bare arguments --------------------------------------------------------------------------------------------------- *)
AllDigits(s) == s # <<>> /\ \A j \in 1..Len(s) : s[j] \in Digits
Unsigned(s) == IF s # <<>> /\ s[1] = "-" THEN Tail(s) ELSE s
IsInt(s) == AllDigits(Unsigned(s))
Index(s, c) == {j \in 1..Len(s) : s[j] = c}
IsMantissa(s) == LET u == Unsigned(s) IN
  \/ AllDigits(u)
  \/ \E j \in Index(u, ".") : /\ Len(u) > 1
                              /\ \A l \in 1..Len(u) : l = j \/ u[l] \in Digits
Exponent(s) == IsInt(s) \/ (s # <<>> /\ s[1] = "+" /\ AllDigits(Tail(s)))
IsFloat(s) == \/ Index(s, ".") # {} /\ IsMantissa(s)
              \/ \E j \in Index(s, "e") \cup Index(s, "uE") : IsMantissa(SubSeq(s, 1, j - 1)) /\ Exponent(SubSeq(s, j + 1, Len(s)))
              \/ Unsigned(s) = <<"i", "n", "f">> \/ s = <<"n", "a", "n">>
RECURSIVE Number(_)
Number(s) == IF s = <<>> THEN 0 ELSE 10 * Number(SubSeq(s, 1, Len(s) - 1)) + (CHOOSE n \in 0..9 : ToString(n) = s[Len(s)])
IsRef(s) == s # <<>> /\ s[1] = "&" /\ AllDigits(Tail(s)) /\ (Mode = "line" \/ Number(Tail(s)) < NResults)
IsConst(s) == s \in {<<"n", "u", "l", "l">>, <<"t", "r", "u", "e">>, <<"f", "a", "l", "s", "e">>}
Strange(s) == \/ Index(s, "_") # {} \/ Index(s, "+") # {}          \* other ways to write a number: not in the format
              \/ Len(s) > 2 /\ s[1] = "&" /\ s[2] = "-" /\ \A j \in 3..Len(s) : s[j] = "0"
Kind(s) == IF IsInt(s) THEN "int" ELSE IF IsFloat(s) THEN "float" ELSE IF IsConst(s) THEN "const" ELSE IF IsRef(s) THEN "ref" ELSE IF Strange(s) THEN "open" ELSE "none"

(* --- reading ------------------------------------------------------------------------------------------------------------ *)
Recorded == IF Mode = "line" THEN ndJsonDeserialize(IOEnv.TRACES) ELSE <<>>
Init == /\ str = <<>> /\ buf = <<>> /\ kw = <<>> /\ items = <<>> /\ verdict = ""
        /\ IF Mode = "line" THEN \E j \in 1..Len(Recorded) : id = j /\ text = Recorded[j].text /\ st = "start" /\ pos = 1
           ELSE id = 0 /\ text = <<>> /\ st = "write" /\ pos = 0
Grow == /\ st = "write" /\ Len(str) < MaxLen
        /\ \E c \in Alphabet : str' = Append(str, c)
        /\ UNCHANGED <<text, st, buf, kw, items, pos, verdict, id>>
Start == /\ st = "write"
         /\ text' = (IF Mode = "read" THEN str ELSE Write(str))
         /\ st' = "gap" /\ pos' = 1
         /\ UNCHANGED <<str, buf, kw, items, verdict, id>>
HasKw(k) == \E j \in 1..Len(items) : items[j].kw = <<k>>
Item(kind) == [kw |-> kw, kind |-> kind, text |-> buf]
Emit1(kind, next) ==     \* end of an argument
  LET bad == kind = "none" \/ (Mode # "line" /\ kw # <<>> /\ (kw[1] \notin {<<k>> : k \in Keywords} \/ HasKw(kw[1])))
      late == Mode # "line" /\ kw = <<>> /\ \E j \in 1..Len(items) : items[j].kw # <<>>
  IN IF bad THEN verdict' = "reject" /\ st' = "stop" /\ UNCHANGED <<items, kw, buf>>
     ELSE IF late \/ kind = "open" THEN verdict' = "open" /\ st' = "stop" /\ UNCHANGED <<items, kw, buf>>
     ELSE items' = Append(items, Item(kind)) /\ kw' = <<>> /\ buf' = <<>> /\ st' = next /\ UNCHANGED verdict
Stop(v) == verdict' = v /\ st' = "stop" /\ UNCHANGED <<items, kw, buf>>
To(s, b) == st' = s /\ buf' = b /\ UNCHANGED <<items, kw, verdict>>
Read ==
  /\ st \in {"start", "cmd", "gap", "bare", "value", "str", "esc", "after"} /\ pos <= Len(text)
  /\ LET c == text[pos] IN
     CASE st = "start" -> (CASE c = "S" -> To("start", <<>>) [] c = "#" -> Stop("accept") [] c = "B" -> Stop("open") [] c \in {"Q", "="} -> Stop("reject") [] OTHER -> To("cmd", <<c>>))
       [] st = "cmd" -> (CASE c = "S" -> Emit1("word", "gap") [] c = "B" -> Stop("open") [] c \in {"Q", "="} -> Stop("reject") [] OTHER -> To("cmd", Append(buf, c)))
       [] st = "gap" -> (CASE c = "S" -> To("gap", <<>>) [] c = "Q" -> To("str", <<>>) [] c = "=" -> Stop("reject") [] c = "B" -> Stop("open") [] OTHER -> To("bare", <<c>>))
       [] st = "value" -> (CASE c = "S" -> Stop("reject") [] c = "Q" -> To("str", <<>>) [] c = "B" -> Stop("open") [] OTHER -> To("bare", <<c>>))
       [] st = "bare" -> (CASE c = "S" -> Emit1(Kind(buf), "gap")
                            [] c = "B" -> Stop("open")
                            [] c = "Q" -> Stop("reject")
                            [] c = "=" /\ kw = <<>> -> kw' = <<buf>> /\ buf' = <<>> /\ st' = "value" /\ UNCHANGED <<items, verdict>>
                            [] OTHER -> To("bare", Append(buf, c)))
       [] st = "str" -> (CASE c = "B" -> To("esc", buf) [] c = "Q" -> Emit1("str", "after") [] OTHER -> To("str", Append(buf, c)))
       [] st = "esc" -> To("str", Append(buf, CASE c = "n" -> "N" [] c = "r" -> "R" [] OTHER -> c))
       [] st = "after" -> (CASE c = "S" -> To("gap", <<>>)
                             [] c = "=" -> LET i == items[Len(items)] IN
                                  IF i.kw # <<>> THEN Stop("reject")
                                  ELSE items' = SubSeq(items, 1, Len(items) - 1) /\ kw' = <<i.text>> /\ buf' = <<>> /\ st' = "value" /\ UNCHANGED verdict
                             [] OTHER -> Stop("open"))
  /\ pos' = pos + 1
  /\ UNCHANGED <<text, str, id>>
End == /\ st \in {"start", "cmd", "gap", "bare", "value", "str", "esc", "after"} /\ pos > Len(text)
       /\ CASE st \in {"str", "esc", "value"} -> Stop("reject")
            [] st = "bare" -> Emit1(Kind(buf), "done")
            [] st = "cmd" -> Emit1("word", "done")
            [] OTHER -> st' = "done" /\ UNCHANGED <<items, kw, buf, verdict>>
       /\ UNCHANGED <<text, str, pos, id>>
Accept == /\ st = "done" /\ verdict = "" /\ verdict' = "accept" /\ UNCHANGED <<text, str, st, buf, kw, items, pos, id>>
Next == Grow \/ Start \/ Read \/ End \/ Accept
Spec == Init /\ [][Next]_vars

Decided == verdict # ""
(* --- properties of the format ------------------------------------------------------------------------------------------- *)
StringsRoundTrip == Decided /\ Mode = "write" => verdict = "accept" /\ items = <<[kw |-> <<>>, kind |-> "str", text |-> str]>>
NothingInvented == Decided /\ verdict = "accept" => \A j \in 1..Len(items) : Len(items[j].text) <= Len(text)
OneLine == st # "write" /\ Mode = "write" => \A j \in 1..Len(text) : text[j] \notin {"N", "R"}
RECURSIVE QuoteParity(_, _, _)
QuoteParity(j, esc, open) == IF j > Len(text) THEN open ELSE QuoteParity(j + 1, ~esc /\ text[j] = "B", IF ~esc /\ text[j] = "Q" THEN ~open ELSE open)
UnbalancedRejected == Decided /\ ~(Mode = "line" /\ verdict = "accept" /\ items = <<>>) /\ QuoteParity(1, FALSE, FALSE) => verdict \in {"reject", "open"}
Terminates == <>(verdict # "")

Emit == Decided =>
  CSVWrite("%1$s", <<ToJson([id |-> id, str |-> str, text |-> text, verdict |-> verdict, items |-> IF verdict = "accept" THEN items ELSE <<>>])>>, IOEnv.OUT)
=============================================================================
