------------------------------- MODULE Pointer -------------------------------
(***************************************************************************)
(* Pointers scheme://pkg#/token/token: text and derivation.                  *)
(* A fragment is a sequence of tokens.                                       *)
(***************************************************************************)
EXTENDS Values

Escaped(t) == MapChars(t, LAMBDA c : IF c = "~" THEN "~0" ELSE IF c = "/" THEN "~1" ELSE c)

RECURSIVE FragText(_)
FragText(p) == IF p = <<>> THEN "" ELSE "/" \o Escaped(p[1]) \o FragText(Tail(p))

RECURSIVE Unescaped(_)
Unescaped(s) ==
    IF s = "" THEN ""
    ELSE IF HasPrefix(s, "~1") THEN "/" \o Unescaped(Drop(s, 2))
    ELSE IF HasPrefix(s, "~0") THEN "~" \o Unescaped(Drop(s, 2))
    ELSE SubSeq(s, 1, 1) \o Unescaped(Drop(s, 1))

\* s split at every character c
RECURSIVE SplitAt(_, _)
SplitAt(s, c) == LET i == Index(s, c) IN
                 IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitAt(Drop(s, i), c)

Tokens(s) == LET q == SplitAt(Drop(s, 1), "/") IN [i \in 1..Len(q) |-> Unescaped(q[i])]
\* tokens of the text of a fragment
ParseFrag(s) == IF s = "" THEN [ok |-> <<>>]
                ELSE IF ~HasPrefix(s, "/") THEN Fail
                ELSE [ok |-> Tokens(s)]

\* the fragment of a URL is percent encoded
Percent(s) == MapChars(s, LAMBDA c : IF c = "%" THEN "%25" ELSE c)
Hex == [x \in {"25", "20", "2F", "2f", "7E", "7e", "23", "41"} |->
        CASE x = "25" -> "%" [] x = "20" -> " " [] x \in {"2F", "2f"} -> "/" [] x \in {"7E", "7e"} -> "~"
          [] x = "23" -> "#" [] x = "41" -> "A"]
RECURSIVE Unpercent(_)
Unpercent(s) ==
    IF s = "" THEN [ok |-> ""]
    ELSE LET n == IF HasPrefix(s, "%") THEN 3 ELSE 1 IN
         IF Len(s) < n \/ (n = 3 /\ SubSeq(s, 2, 3) \notin DOMAIN Hex) THEN Fail
         ELSE LET r == Unpercent(Drop(s, n)) IN
              IF IsFail(r) THEN r
              ELSE [ok |-> (IF n = 3 THEN Hex[SubSeq(s, 2, 3)] ELSE SubSeq(s, 1, 1)) \o r.ok]

Pointer(scheme, pkg, toks) == [scheme |-> scheme, pkg |-> pkg, toks |-> toks]
PtrText(p) == (IF p.scheme = "" THEN p.pkg ELSE p.scheme \o "://" \o p.pkg) \o "#" \o Percent(FragText(p.toks))
GoText(pkg, toks) == PtrText(Pointer("go", pkg, toks))

RECURSIVE IndexOfText(_, _, _)
IndexOfText(s, t, i) == IF i + Len(t) - 1 > Len(s) THEN 0
                        ELSE IF SubSeq(s, i, i + Len(t) - 1) = t THEN i ELSE IndexOfText(s, t, i + 1)

\* a part before '#' which has a percent sign is not parsed here, but
\* those with "%zz" are no URLs
ParsePtr(s) ==
    LET i == Index(s, "#")
        url == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
        j == IndexOfText(url, "://", 1)
        frag == Unpercent(IF i = 0 THEN "" ELSE Drop(s, i))
        toks == IF IsFail(frag) THEN Fail ELSE ParseFrag(frag.ok)
    IN IF IndexOfText(url, "%zz", 1) > 0 \/ IsFail(toks) \/ HasPrefix(url, ":") THEN Fail
       ELSE [ok |-> IF url = "go:" THEN Pointer("go", "", toks.ok)   \* as go:// is written
                    ELSE IF j = 0 THEN Pointer("", url, toks.ok)
                    ELSE Pointer(SubSeq(url, 1, j - 1), Drop(url, j + 2), toks.ok)]

(***************************************************************************)
(* Derivations: state st is a function from handles to pointers.             *)
(***************************************************************************)
Descend(p, path) ==
    LET q == Tokens(IF HasPrefix(path, "/") THEN path ELSE "/" \o path)
    IN IF p = <<"">> THEN q ELSE p \o q

NoPtr == Pointer("", "", <<>>)
Derive(st, op) ==
    LET f == st[op.from]
        Frag(q) == [f EXCEPT !.toks = q]
    IN CASE op.op = "new" -> [ok |-> Pointer("", "", op.toks)]
         [] op.op = "go" -> [ok |-> Pointer("go", op.pkg, op.toks)]
         [] op.op = "desc" -> [ok |-> Frag(Descend(f.toks, op.path))]
         [] op.op = "raw" -> [ok |-> Frag(f.toks \o op.toks)]
         [] op.op = "replace" -> IF op.n < 0 \/ op.n >= Len(f.toks) THEN Fail
                                 ELSE [ok |-> Frag([f.toks EXCEPT ![op.n + 1] = op.tok])]
         [] op.op \in {"clone", "fragclone", "reparse"} -> [ok |-> f]
=============================================================================
