-------------------------------- MODULE Tags ---------------------------------
(***************************************************************************)
(* Struct tags. A tag has a json part (name jn, options jo) and an oapi part *)
(* (name on, options oo); options are sequences of [k, v] with v "" if no     *)
(* value is given.                                                           *)
(***************************************************************************)
EXTENDS Values, Integers

Bools == {"omitempty", "readonly", "writeonly", "deprecated", "required", "unique"}
Tri == {"inline", "nullable"}
Ints == {"minlen", "maxlen", "minitems", "maxitems", "minprops", "maxprops"}
Nums == {"min", "max", "emin", "emax", "mulof"}
Texts == {"pattern", "format", "type"}
JsonOpts == {"inline", "omitempty"}
OapiOpts == Bools \cup Tri \cup Ints \cup Nums \cup Texts

TrueTexts == {"", "1", "t", "T", "TRUE", "true", "True"}
FalseTexts == {"0", "f", "F", "FALSE", "false", "False"}
AllDigits(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in Elems(Digits)
DigitsOnly(s) == s # "" /\ AllDigits(s)
Signed(s) == s # "" /\ SubSeq(s, 1, 1) \in {"-", "+"}
Unsigned(s) == IF Signed(s) THEN Drop(s, 1) ELSE s
Negative(s) == HasPrefix(s, "-")

RECURSIVE NoZerosLeft(_), NoZerosRight(_), Zeros(_), NatOf(_)
NoZerosLeft(s) == IF HasPrefix(s, "0") THEN NoZerosLeft(Drop(s, 1)) ELSE s
NoZerosRight(s) == IF HasSuffix(s, "0") THEN NoZerosRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
DigitOf(c) == CHOOSE d \in 0..9 : Digits[d + 1] = c
NatOf(s) == IF s = "" THEN 0 ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + DigitOf(SubSeq(s, Len(s), Len(s)))

\* order of digit sequences without leading zeros, as numbers
LessDigits(a, b) ==
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \E i \in 1..Len(a) : /\ SubSeq(a, 1, i - 1) = SubSeq(b, 1, i - 1)
                              /\ DigitOf(SubSeq(a, i, i)) < DigitOf(SubSeq(b, i, i))

\* integers are decimal, with or without sign, of 64 bits; leading zeros mean nothing
IntText(s) == DigitsOnly(Unsigned(s))
              /\ LessDigits(NoZerosLeft(Unsigned(s)), IF Negative(s) THEN "9223372036854775809" ELSE "9223372036854775808")
IntOf(s) == LET d == NoZerosLeft(Unsigned(s)) IN IF d = "" THEN "0" ELSE IF Negative(s) THEN "-" \o d ELSE d

\* numbers may have a fraction and an exponent
ExpAt(u) == IF HasChar(u, "e") THEN Index(u, "e") ELSE Index(u, "E")
Mantissa(u) == IF ExpAt(u) = 0 THEN u ELSE SubSeq(u, 1, ExpAt(u) - 1)
Exponent(u) == IF ExpAt(u) = 0 THEN "0" ELSE Drop(u, ExpAt(u))
Whole(m) == IF HasChar(m, ".") THEN SubSeq(m, 1, Index(m, ".") - 1) ELSE m
Fraction(m) == IF HasChar(m, ".") THEN Drop(m, Index(m, ".")) ELSE ""
NumForm(s) == LET u == Unsigned(s)
                  m == Mantissa(u)
              IN AllDigits(Whole(m)) /\ AllDigits(Fraction(m)) /\ Whole(m) \o Fraction(m) # ""
                 /\ DigitsOnly(Unsigned(Exponent(u)))
\* significant digits, and the position of the point among them
SigDigits(s) == LET m == Mantissa(Unsigned(s)) IN NoZerosRight(NoZerosLeft(Whole(m) \o Fraction(m)))
PointAt(s) == LET u == Unsigned(s)
                  m == Mantissa(u)
                  d == Whole(m) \o Fraction(m)
                  x == Exponent(u)
                  n == NatOf(Unsigned(x))
              IN Len(Whole(m)) - (Len(d) - Len(NoZerosLeft(d))) + (IF Negative(x) THEN 0 - n ELSE n)
NumText(s) == NumForm(s) /\ (SigDigits(s) = "" \/ PointAt(s) <= 308)
NumOf(s) ==
    LET d == SigDigits(s)
        p == PointAt(s)
        x == IF p <= 0 THEN "0." \o Zeros(0 - p) \o d
             ELSE IF p >= Len(d) THEN d \o Zeros(p - Len(d))
             ELSE SubSeq(d, 1, p) \o "." \o Drop(d, p)
    IN IF d = "" THEN "0" ELSE IF Negative(s) THEN "-" \o x ELSE x

BadValue(o) == CASE o.k \in Bools \cup Tri -> o.v \notin TrueTexts \cup FalseTexts
                 [] o.k \in Ints -> ~IntText(o.v)
                 [] o.k \in Nums -> ~NumText(o.v)
                 [] OTHER -> FALSE

Ignored(f) == f.jn = "-" \/ f.on = "-"
TagError(f) ==
    \/ f.jn # "-" /\ \E i \in 1..Len(f.jo) : f.jo[i].k \in JsonOpts /\ BadValue(f.jo[i])
    \/ f.on # "-" /\ \E i \in 1..Len(f.oo) : f.oo[i].k \in OapiOpts /\ BadValue(f.oo[i])

\* options in effect: those of oapi, else those of json which have a meaning
HasOpt(q, k) == \E i \in 1..Len(q) : q[i].k = k
OptOf(q, k) == q[CHOOSE i \in 1..Len(q) : q[i].k = k].v
Options(f) == f.oo \o SelectSeq(f.jo, LAMBDA o : o.k \in JsonOpts /\ ~HasOpt(f.oo, o.k))

Has(tg, k) == HasOpt(tg, k)
Val(tg, k) == OptOf(tg, k)
\* number that is the value of an option
NumVal(tg, k) == Num(IF k \in Ints THEN IntOf(Val(tg, k)) ELSE NumOf(Val(tg, k)))
Flag(tg, k) == Has(tg, k) /\ Val(tg, k) \in TrueTexts
TextOf(tg, k) == IF Has(tg, k) THEN Val(tg, k) ELSE ""

\* name a field gets, "" if its tags give none
TagName(f) == IF f.on # "" THEN f.on ELSE f.jn

\* what reading the whole tag gives
ParseTag(f) ==
    IF TagError(f) THEN Fail
    ELSE IF Ignored(f) THEN [ok |-> Obj("ignore" :> True)]
    ELSE LET tg == Options(f)
             given == {k \in OapiOpts : Has(tg, k)}
             shown == {k \in given : (k \in Bools => Flag(tg, k)) /\ (k \in Texts => Val(tg, k) # "")}
         IN [ok |-> Obj([k \in shown \cup (IF TagName(f) = "" THEN {} ELSE {"name"}) |->
                CASE k = "name" -> Str(TagName(f))
                  [] k \in Bools \cup Tri -> IF Flag(tg, k) THEN True ELSE False
                  [] k \in Ints \cup Nums -> NumVal(tg, k)
                  [] k \in Texts -> Str(Val(tg, k))])]
=============================================================================
