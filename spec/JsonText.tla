------------------------------ MODULE JsonText ------------------------------
(* JSON text (RFC 8259): a reader over a sequence of characters. A printable
   ASCII character is the one-character string; any other byte is "xHH". *)
EXTENDS Integers, Sequences, TLC
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [d \in Digits |-> CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4
                                [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]
Control == {"x00", "x01", "x02", "x03", "x04", "x05", "x06", "x07", "x08", "x09", "x0a", "x0b", "x0c", "x0d", "x0e", "x0f",
            "x10", "x11", "x12", "x13", "x14", "x15", "x16", "x17", "x18", "x19", "x1a", "x1b", "x1c", "x1d", "x1e", "x1f"}
Space == {" ", "x09", "x0a", "x0d"}
Simple == [c \in {"\"", "\\", "/", "b", "f", "n", "r", "t"} |->
             CASE c = "b" -> "x08" [] c = "f" -> "x0c" [] c = "n" -> "x0a" [] c = "r" -> "x0d" [] c = "t" -> "x09" [] OTHER -> c]
At(t, i) == IF i <= Len(t) THEN t[i] ELSE ""
Bad == [v |-> [k |-> "bad"], i |-> 0]
RECURSIVE Skip(_, _)
Skip(t, i) == IF At(t, i) \in Space THEN Skip(t, i + 1) ELSE i
\* the rest of a string; acc is what was read so far
RECURSIVE StrFrom(_, _, _)
StrFrom(t, i, acc) ==
  LET c == At(t, i) IN
  CASE c = "" \/ c \in Control -> Bad
    [] c = "\"" -> [v |-> [k |-> "str", s |-> acc], i |-> i + 1]
    [] c = "\\" -> LET d == At(t, i + 1) IN
                   IF d \in DOMAIN Simple THEN StrFrom(t, i + 2, Append(acc, Simple[d]))
                   ELSE IF d = "u" /\ i + 5 <= Len(t) /\ t[i + 2] = "0" /\ t[i + 3] = "0"
                        THEN StrFrom(t, i + 6, Append(acc, "x" \o t[i + 4] \o t[i + 5]))
                   ELSE Bad
    [] OTHER -> StrFrom(t, i + 1, Append(acc, c))
RECURSIVE DigitsFrom(_, _)
DigitsFrom(t, i) == IF At(t, i) \in Digits THEN DigitsFrom(t, i + 1) ELSE i
Num(t, i) ==
  LET a == IF At(t, i) = "-" THEN i + 1 ELSE i
      b == DigitsFrom(t, a)
      c == IF At(t, b) = "." THEN DigitsFrom(t, b + 1) ELSE b
      e1 == IF At(t, c) \in {"e", "E"} THEN (IF At(t, c + 1) \in {"+", "-"} THEN c + 2 ELSE c + 1) ELSE c
      e2 == IF e1 = c THEN c ELSE DigitsFrom(t, e1)
  IN IF b = a \/ (At(t, a) = "0" /\ b > a + 1) \/ (At(t, b) = "." /\ c = b + 1) \/ (e1 > c /\ e2 = e1) THEN Bad
     ELSE [v |-> [k |-> "num", neg |-> a > i, int |-> SubSeq(t, a, b - 1), frac |-> SubSeq(t, b + 1, c - 1),
                  exp |-> SubSeq(t, e1, e2 - 1), eneg |-> e1 > c /\ At(t, e1 - 1) = "-"], i |-> e2]
Word(t, i, w, v) == IF \A j \in 1..Len(w) : At(t, i + j - 1) = w[j] THEN [v |-> v, i |-> i + Len(w)] ELSE Bad
RECURSIVE Cat(_)
Cat(s) == IF s = << >> THEN "" ELSE IF Len(s) = 1 THEN s[1]
          ELSE LET h == Len(s) \div 2 IN Cat(SubSeq(s, 1, h)) \o Cat(SubSeq(s, h + 1, Len(s)))
RECURSIVE Value(_, _), Members(_, _, _), Elements(_, _, _)
Value(t, j) ==
  LET i == Skip(t, j)  c == At(t, i) IN
  CASE c = "\"" -> StrFrom(t, i + 1, << >>)
    [] c = "{" -> LET m == Skip(t, i + 1) IN
                  IF At(t, m) = "}" THEN [v |-> [k |-> "obj", m |-> << >>], i |-> m + 1] ELSE Members(t, m, << >>)
    [] c = "[" -> LET m == Skip(t, i + 1) IN
                  IF At(t, m) = "]" THEN [v |-> [k |-> "arr", a |-> << >>], i |-> m + 1] ELSE Elements(t, m, << >>)
    [] c = "t" -> Word(t, i, <<"t", "r", "u", "e">>, [k |-> "bool", b |-> TRUE])
    [] c = "f" -> Word(t, i, <<"f", "a", "l", "s", "e">>, [k |-> "bool", b |-> FALSE])
    [] c = "n" -> Word(t, i, <<"n", "u", "l", "l">>, [k |-> "null"])
    [] c = "-" \/ c \in Digits -> Num(t, i)
    [] OTHER -> Bad
Members(t, j, acc) ==
  LET i == Skip(t, j) IN
  IF At(t, i) # "\"" THEN Bad ELSE
  LET key == StrFrom(t, i + 1, << >>) IN
  IF key.i = 0 THEN Bad ELSE
  LET col == Skip(t, key.i) IN
  IF At(t, col) # ":" THEN Bad ELSE
  LET val == Value(t, col + 1) IN
  IF val.i = 0 THEN Bad ELSE
  LET nx == Skip(t, val.i)  now == Append(acc, [key |-> Cat(key.v.s), val |-> val.v]) IN
  CASE At(t, nx) = "," -> Members(t, nx + 1, now)
    [] At(t, nx) = "}" -> [v |-> [k |-> "obj", m |-> now], i |-> nx + 1]
    [] OTHER -> Bad
Elements(t, j, acc) ==
  LET val == Value(t, j) IN
  IF val.i = 0 THEN Bad ELSE
  LET nx == Skip(t, val.i)  now == Append(acc, val.v) IN
  CASE At(t, nx) = "," -> Elements(t, nx + 1, now)
    [] At(t, nx) = "]" -> [v |-> [k |-> "arr", a |-> now], i |-> nx + 1]
    [] OTHER -> Bad
\* exactly one value, with nothing but space around it
Document(t) == LET r == Value(t, 1) IN
               IF r.i = 0 \/ Skip(t, r.i) <= Len(t) THEN [k |-> "bad"] ELSE r.v

(* --- writing, for the model: the only freedom taken is in the spacing --- *)
Esc(c) == CASE c = "\"" -> <<"\\", "\"">> [] c = "\\" -> <<"\\", "\\">> [] c = "x0a" -> <<"\\", "n">>
            [] c = "x01" -> <<"\\", "u", "0", "0", "0", "1">> [] OTHER -> <<c>>
RECURSIVE EscAll(_), WriteV(_, _), WriteM(_, _, _), WriteE(_, _, _)
EscAll(s) == IF s = << >> THEN << >> ELSE Esc(Head(s)) \o EscAll(Tail(s))
WriteS(s) == <<"\"">> \o EscAll(s) \o <<"\"">>
WriteV(v, sp) ==
  CASE v.k = "str" -> WriteS(v.s)
    [] v.k = "num" -> (IF v.neg THEN <<"-">> ELSE << >>) \o v.int
    [] v.k = "bool" -> IF v.b THEN <<"t", "r", "u", "e">> ELSE <<"f", "a", "l", "s", "e">>
    [] v.k = "arr" -> <<"[">> \o WriteE(v.a, 1, sp) \o <<"]">>
    [] v.k = "obj" -> <<"{">> \o WriteM(v.m, 1, sp) \o <<"}">>
WriteE(a, i, sp) == IF i > Len(a) THEN << >> ELSE (IF i > 1 THEN <<",">> \o sp ELSE << >>) \o WriteV(a[i], sp) \o WriteE(a, i + 1, sp)
WriteM(m, i, sp) == IF i > Len(m) THEN << >>
                    ELSE (IF i > 1 THEN <<",">> \o sp ELSE << >>) \o WriteS(<<m[i].key>>) \o <<":">> \o sp \o WriteV(m[i].val, sp) \o WriteM(m, i + 1, sp)
=============================================================================
