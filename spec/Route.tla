-------------------------------- MODULE Route --------------------------------
(***************************************************************************)
(* Route patterns: their items and what paths they match.                    *)
(***************************************************************************)
EXTENDS Values

Lowers == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Uppers == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
UpperSet == Elems(Uppers)
LowerOf == [u \in UpperSet |-> LET i == CHOOSE i \in 1..26 : Uppers[i] = u IN Lowers[i]]
Lower(s) == MapChars(s, LAMBDA c : IF c \in UpperSet THEN LowerOf[c] ELSE c)

Methods == {"acl", "baseline-control", "bind", "checkin", "checkout", "connect", "copy", "delete", "get", "head",
            "label", "link", "lock", "merge", "mkactivity", "mkcalendar", "mkcol", "mkredirectref", "mkworkspace",
            "move", "options", "orderpatch", "patch", "post", "pri", "propfind", "proppatch", "put", "rebind", "report",
            "search", "trace", "unbind", "uncheckout", "unlink", "unlock", "update", "updateredirectref",
            "version-control"}

\* method prefix of a pattern, "" if it has none
MethodOf(pattern) ==
    LET i == Index(pattern, ":")
        m == Lower(SubSeq(pattern, 1, i - 1))
    IN IF i > 0 /\ m \in Methods THEN m ELSE ""
RouteOf(pattern) == LET m == MethodOf(pattern) IN IF m = "" THEN pattern ELSE Drop(pattern, Len(m) + 1)

\* length of the variable {name} a pattern begins with, 0 if it does not
VarLen(s) ==
    LET RECURSIVE End(_)
        End(i) == IF i > Len(s) THEN 0
                  ELSE LET c == SubSeq(s, i, i) IN
                       IF c = "}" THEN IF i > 2 THEN i ELSE 0
                       ELSE IF c \in {"{", "/", "*"} THEN 0 ELSE End(i + 1)
    IN IF HasPrefix(s, "{") THEN End(2) ELSE 0

\* items: characters for themselves, "{}" and "**"
RECURSIVE Items(_)
Items(s) == IF s = "" THEN <<>>
            ELSE IF HasPrefix(s, "*") THEN <<"**">> \o Items(Drop(s, 1))
            ELSE IF VarLen(s) > 0 THEN <<"{}">> \o Items(Drop(s, VarLen(s)))
            ELSE <<SubSeq(s, 1, 1)>> \o Items(Drop(s, 1))

\* positions of path reached from positions P by one item
After(P, item, path) ==
    CASE item = "**" -> IF P = {} THEN {} ELSE {j \in 0..Len(path) : \E i \in P : i <= j}
      [] item = "{}" -> {j \in 1..Len(path) : \E i \in P : i < j /\ \A k \in (i + 1)..j : SubSeq(path, k, k) # "/"}
      [] OTHER -> {j \in 1..Len(path) : j - 1 \in P /\ SubSeq(path, j, j) = item}

RECURSIVE Reach(_, _, _)
Reach(P, items, path) == IF items = <<>> \/ P = {} THEN P ELSE Reach(After(P, items[1], path), Tail(items), path)
MatchItems(items, path) == Len(path) \in Reach({0}, items, path)

MethodOK(pattern, method) ==
    LET m == MethodOf(pattern) IN m = "" \/ method = "" \/ Lower(method) = m
Match(pattern, method, path) == MethodOK(pattern, method) /\ MatchItems(Items(RouteOf(pattern)), path)
=============================================================================
