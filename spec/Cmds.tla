-------------------------------- MODULE Cmds --------------------------------
(***************************************************************************)
(* Export comments.                                                         *)
(* A comment is its text including the slashes; what it declares depends on  *)
(* the text and the package it is in only.                                   *)
(***************************************************************************)
EXTENDS Pointer

Prefix == "//openapi"
RECURSIVE TrimRight(_)
TrimRight(s) == IF HasSuffix(s, " ") THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s

IsCmd(text) == HasPrefix(text, Prefix)
Words(text) == SplitAt(TrimRight(Drop(text, Len(Prefix))), " ")

Target(a, pkg) ==
    IF IndexOfText(a, "://", 1) > 0 \/ HasChar(a, "#") THEN ParsePtr(a)
    ELSE ParsePtr("go://" \o pkg \o "#/" \o a)

Nothing == [ok |-> <<>>]
\* what one comment declares: nothing, one export, or failure
Declares(text, pkg) ==
    IF ~IsCmd(text) THEN Nothing
    ELSE LET w == Words(text)
             args == Tail(w)
         IN CASE w[1] \in {"", ":root"} -> Nothing
              [] w[1] = ":schema" ->
                   IF Len(args) \notin {1, 2} \/ \E i \in 1..Len(args) : args[i] = "" THEN Fail
                   ELSE LET p == Target(args[Len(args)], pkg) IN
                        IF IsFail(p) THEN Fail
                        ELSE [ok |-> <<[name |-> IF Len(args) = 2 \/ p.ok.toks = <<>> THEN args[1]
                                                 ELSE p.ok.toks[Len(p.ok.toks)],
                                        ptr |-> p.ok]>>]
              [] OTHER -> Fail

\* comments: sequence of [pkg, text]
AllDeclared(comments) ==
    LET d == [i \in 1..Len(comments) |-> Declares(comments[i].text, comments[i].pkg)] IN
    IF \E i \in DOMAIN d : IsFail(d[i]) THEN Fail
    ELSE LET decl == SelectSeq([i \in DOMAIN d |-> IF d[i].ok = <<>> THEN [none |-> TRUE] ELSE d[i].ok[1]],
                               LAMBDA x : "name" \in DOMAIN x)
         IN [ok |-> decl]

\* the exports of all packages; a name or pointer must not be declared twice
Exports(comments) ==
    LET r == AllDeclared(comments) IN
    IF IsFail(r) THEN r
    ELSE IF \E i, j \in 1..Len(r.ok) : i # j /\ (r.ok[i].name = r.ok[j].name \/ r.ok[i].ptr = r.ok[j].ptr)
         THEN Fail ELSE r
=============================================================================
