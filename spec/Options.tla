------------------------------ MODULE Options ------------------------------
(* The options list: registered names with types and admissible values,     *)
(* plain and prefixed settings, protection against overwriting, reading of   *)
(* option texts token by token.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Prefixes,   \* spellings of prefixes, "" included
          Names,      \* names used (registered: str any flag num cnt; others are not)
          Chunks,     \* pieces of option texts
          TextLen,    \* length of option texts (0: no text is read)
          MaxLen,
          Reg         \* the list has a registry
VARIABLES val,  \* key -> [set, v, cl]
          h
vars == <<val, h>>

Types == [str |-> "S", any |-> "S", flag |-> "S", num |-> "N", cnt |-> "I"]
Known(n) == n \in DOMAIN Types
IsType(n, t) == IF Known(n) THEN Types[n] = t ELSE FALSE
Default == [str |-> "beta", any |-> "dflt", flag |-> "no", num |-> "0.5", cnt |-> "3"]
\* letter case: prefixes (and, without registry, names) are case-insensitive
LowP(p) == CASE p = "RESTO." -> "resto." [] p = "Resto." -> "resto." [] OTHER -> p
LowN(n) == CASE n = "NUM" -> "num" [] n = "Any" -> "any" [] OTHER -> n
AllNames == {"str", "any", "flag", "num", "cnt", "unk"}
Keys == {LowP(p) \o n : p \in Prefixes, n \in AllNames}
Key(p, n) == LowP(p) \o LowN(n)
Unset == [set |-> FALSE, v |-> "", cl |-> TRUE]

\* admissible values and the value they stand for
StrVal == [str |-> [Alpha |-> "Alpha", ALPHA |-> "Alpha", beta |-> "beta", Beta |-> "beta"],
           flag |-> [yes |-> "yes", YES |-> "yes", no |-> "no", No |-> "no"]]
StrOk(n, v) == IF n = "any" THEN TRUE ELSE v \in DOMAIN StrVal[n]
StrMap(n, v) == IF n = "any" THEN v ELSE StrVal[n][v]
StrEnum(v) == IF v = "Alpha" THEN 0 ELSE 1
\* num: 0 < num <= 2, cnt: 0 <= cnt <= 10
NumOk(v) == v \in {"0.1", "1.23456789012345", "1e-300", "2", "0.5", "1", "5e-324"}
NumBad == {"-1", "0", "2.0000000001", "Infinity", "7", "77", "777", "7777", "4294967301", "-4"}
IntOk(v) == v \in {"0", "10", "7", "1", "2"}
IntBad == {"-1", "11", "-2147483648", "2147483647"}
\* tokens of option texts that are numbers / integers (d and D mean e)
NumTok == ("7" :> "7") @@ ("77" :> "77") @@ ("777" :> "777") @@ ("7777" :> "7777") @@ ("0.5" :> "0.5") @@ ("5d-1" :> "0.5") @@ ("1E0" :> "1")
          @@ ("1D+0" :> "1") @@ ("2" :> "2") @@ ("4294967301" :> "4294967301") @@ ("-4" :> "-4")
IntTok == ("7" :> "7") @@ ("77" :> "77") @@ ("777" :> "777") @@ ("7777" :> "7777") @@ ("2" :> "2") @@ ("-4" :> "-4")

Init == val = [k \in Keys |-> Unset] /\ h = <<[op |-> "new", a |-> <<Reg>>, r |-> ""]>>
Log(op, a, r) == h' = Append(h, [op |-> op, a |-> a, r |-> r])
Bool(b) == IF b THEN "true" ELSE "false"

\* --- setting -----------------------------------------------------------------
Valid(t, n, v) == IF ~Reg THEN TRUE ELSE IF ~IsType(n, t) THEN FALSE
                  ELSE CASE t = "S" -> StrOk(n, v) [] t = "N" -> NumOk(v) [] t = "I" -> IntOk(v)
\* result and new map; protected values stay and the call reports success
DoSet(m, t, p, n, v, cl) ==
  IF ~Valid(t, n, v) THEN <<"false", m>>
  ELSE IF ~m[Key(p, n)].cl THEN <<"true", m>>
  ELSE <<"true", [m EXCEPT ![Key(p, n)] = [set |-> TRUE, v |-> v, cl |-> cl]]>>
Values(t, n) == CASE t = "S" -> IF n = "str" THEN {"Alpha", "ALPHA", "Beta", "gamma"} ELSE IF n = "flag" THEN {"YES", "no", "maybe"} ELSE IF Reg THEN {"some Text"} ELSE {"Text", "7", "0.5"}
                  [] t = "N" -> {"0.1", "1.23456789012345", "1e-300", "2", "-1", "0", "2.0000000001", "Infinity"}
                  [] t = "I" -> {"0", "10", "7", "-1", "11"}
Set(t, p, n, v, cl) == LET d == DoSet(val, t, p, n, v, cl)
                       IN val' = d[2] /\ Log("set", <<t, p \o n, v, cl>>, d[1])
\* only if neither this key nor anything else it falls back to is set
Look(m, p, n) == IF m[Key(p, n)].set THEN m[Key(p, n)] ELSE IF m[Key("", n)].set THEN m[Key("", n)] ELSE Unset
SetIfUnset(t, p, n, v, cl) ==
  IF Reg /\ ~IsType(n, t) THEN val' = val /\ Log("setif", <<t, p \o n, v, cl>>, "invalid")
  ELSE LET d == IF val[Key(p, n)].set THEN <<"true", val>> ELSE DoSet(val, t, p, n, v, cl)
       IN val' = d[2] /\ Log("setif", <<t, p \o n, v, cl>>, d[1])
DoUnset(p, n) == LET k == Key(p, n)
                 IN IF val[k].cl THEN val' = [val EXCEPT ![k] = Unset] /\ Log("unset", <<p \o n>>, Bool(val[k].set))
                    ELSE val' = val /\ Log("unset", <<p \o n>>, "false")

\* --- reading -----------------------------------------------------------------
RdTypes == {"S", "N", "I", "B", "E"}
Under(t) == IF t \in {"B", "E"} THEN "S" ELSE t
Read(t, p, n) ==
  LET e == Look(val, p, n)
      f == IF e.set THEN "1" ELSE "0"
  IN IF Reg THEN
       IF ~IsType(n, Under(t)) THEN <<"invalid">>
       ELSE LET v == IF ~e.set THEN Default[n] ELSE IF Under(t) = "S" THEN StrMap(n, e.v) ELSE e.v
            IN IF t = "B" /\ n # "flag" THEN <<"invalid">>
               ELSE IF t = "B" THEN <<f, v>>
               ELSE IF t = "E" THEN <<f, ToString(StrEnum(v))>> ELSE <<f, v>>
     ELSE IF ~e.set THEN <<"0">>
     ELSE IF t = "S" THEN <<"1", e.v>>
     ELSE IF t = "N" /\ e.v \in DOMAIN NumTok THEN <<"1", NumTok[e.v]>>
     ELSE IF t = "I" /\ e.v \in DOMAIN IntTok THEN <<"1", IntTok[e.v]>>
     ELSE <<"invalid">>
Get(t, p, n) == /\ IF t = "E" THEN n \in {"str", "num", "unk"} /\ Reg ELSE TRUE
                /\ IF t = "B" THEN Reg /\ n # "any" ELSE TRUE
                /\ val' = val /\ Log("get", <<t, n, p>>, Read(t, p, n))

\* --- option texts ------------------------------------------------------------
WS == {" ", "\n", "\t"}
Numerals == DOMAIN NumTok \cup DOMAIN IntTok
RECURSIVE Chunked(_)
Chunked(q) == IF q = <<>> THEN <<>> ELSE IF Head(q) \in WS THEN <<>> ELSE <<Head(q)>> \o Chunked(Tail(q))
\* several numerals glued together: left out
Glued(tok) == LET q == Chunked(tok) IN Len(q) > 1 /\ \A i \in DOMAIN q : q[i] \in Numerals
RECURSIVE SkipC(_, _), SkipW(_, _), Plain(_, _, _), Quoted(_, _, _), Cat(_), Trim(_), Word(_)
SkipC(t, i) == IF i > Len(t) THEN i ELSE IF t[i] = "\n" THEN i + 1 ELSE SkipC(t, i + 1)
SkipW(t, i) == IF i > Len(t) THEN i ELSE IF t[i] \in WS THEN SkipW(t, i + 1)
               ELSE IF t[i] = "#" THEN SkipW(t, SkipC(t, i)) ELSE i
Plain(t, i, acc) == IF i > Len(t) THEN [ok |-> TRUE, tok |-> acc, i |-> i] ELSE IF t[i] \in WS THEN [ok |-> TRUE, tok |-> acc, i |-> i + 1]
                    ELSE Plain(t, i + 1, Append(acc, t[i]))
Quoted(t, i, acc) == IF i > Len(t) THEN [ok |-> FALSE, tok |-> acc, i |-> i] ELSE IF t[i] = "\"" THEN Plain(t, i + 1, acc)
                     ELSE Quoted(t, i + 1, Append(acc, t[i]))
Token(t, i) == LET j == SkipW(t, i) IN
  IF j > Len(t) THEN [ok |-> FALSE, tok |-> <<>>, i |-> j]
  ELSE IF t[j] = "\"" THEN Quoted(t, j + 1, <<>>) ELSE Plain(t, j, <<>>)
Cat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Cat(Tail(q))
Trim(q) == IF q = <<>> THEN q ELSE IF Head(q) \in WS THEN Trim(Tail(q)) ELSE q
Word(q) == IF q = <<>> THEN "" ELSE IF Head(q) \in WS THEN "" ELSE Head(q) \o Word(Tail(q))
\* texts with empty or blank quoted tokens are left out (see DESIGN.md)
Blank(tok) == Trim(tok) = <<>>
TagOf(s) == IF \E p \in Prefixes, n \in AllNames : s = p \o n
            THEN CHOOSE x \in Prefixes \X AllNames : s = x[1] \o x[2] ELSE <<"", "?">>
\* tags with other prefixes than the ones followed here
OddTag(tok) == TagOf(Cat(tok))[2] = "?" /\ \E i \in DOMAIN tok : tok[i] \in {"resto.", "RESTO.num", "resto.str", "resto.cnt", "0.5"}
RECURSIVE Run(_, _, _, _)
Run(t, i, m, cl) ==
  LET g == Token(t, i) IN
  IF ~g.ok THEN [r |-> "true", m |-> m, odd |-> FALSE]
  ELSE LET v == Token(t, g.i)  tag == TagOf(Cat(g.tok))  n == tag[2] IN
    IF Blank(g.tok) \/ OddTag(g.tok) \/ (v.ok /\ (Blank(v.tok) \/ Glued(Trim(v.tok)))) THEN [r |-> "", m |-> m, odd |-> TRUE]
    ELSE IF ~v.ok THEN [r |-> "false", m |-> m, odd |-> FALSE]
    ELSE IF ~Known(n) THEN [r |-> "invalid", m |-> m, odd |-> FALSE]
    ELSE LET w == Word(Trim(v.tok))
             ty == Types[n]
             good == CASE ty = "S" -> TRUE [] ty = "N" -> w \in DOMAIN NumTok [] ty = "I" -> w \in DOMAIN IntTok
         IN IF ~good THEN [r |-> "invalid", m |-> m, odd |-> FALSE]
            ELSE LET x == CASE ty = "S" -> Cat(v.tok) [] ty = "N" -> NumTok[w] [] ty = "I" -> IntTok[w]
                     d == DoSet(m, ty, tag[1], n, x, cl)
                 IN IF d[1] = "false" THEN [r |-> "invalid", m |-> m, odd |-> FALSE] ELSE Run(t, v.i, d[2], cl)
Texts == UNION {[1..k -> Chunks] : k \in 0..TextLen}
ReadText(t, cl) == LET x == Run(t, 1, val, cl) IN
  /\ ~x.odd /\ \A i \in 1..(Len(t) - 1) : ~(t[i] = "\"" /\ t[i + 1] = "\"")
  /\ val' = x.m /\ Log("read", <<Cat(t), cl>>, x.r)
\* everything that can be read afterwards
Snapshot == val' = val /\ h' = Append(h, [op |-> "snap", a |-> <<>>, r |->
     <<Read("S", "", "str"), Read("S", "", "any"), Read("B", "", "flag"), Read("N", "", "num"), Read("I", "", "cnt"),
       Read("S", "resto.", "str"), Read("N", "RESTO.", "num"), Read("I", "resto.", "cnt"), Read("B", "Resto.", "flag")>>])

Bools == {TRUE, FALSE}
NextOps == \/ \E t \in {"S", "N", "I"}, p \in Prefixes, n \in Names, cl \in Bools : \E v \in Values(t, n) :
               (Reg \/ t = "S") /\ (Set(t, p, n, v, cl) \/ SetIfUnset(t, p, n, v, cl))
           \/ \E p \in Prefixes, n \in Names : DoUnset(p, n)
           \/ \E t \in RdTypes, p \in Prefixes, n \in Names : Get(t, p, n)
\* texts: chosen one chunk per step to keep the branching small
NextText == \/ Len(h) = 1 /\ \E t \in Texts, cl \in Bools : ReadText(t, cl)
            \/ Len(h) = 2 /\ Snapshot
RandText == \E t \in {[i \in 1..RandomElement(1..TextLen) |-> RandomElement(Chunks)]}, cl \in Bools : ReadText(t, cl)
Next == Len(h) < MaxLen /\ (IF TextLen > 0 /\ MaxLen = 3 THEN NextText
                            ELSE (NextOps \/ (TextLen > 0 /\ (RandText \/ Snapshot))))
Spec == Init /\ [][Next]_vars
Canon == val
\* what is protected never changes (checked on every step)
Protected == [][\A k \in Keys : ~val[k].cl => val'[k] = val[k]]_vars
EmitT == PrintT(ToJson(h'))
EmitH == Len(h) = MaxLen => PrintT(ToJson(h))
=============================================================================
