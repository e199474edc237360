------------------------------ MODULE SmallDocs ------------------------------
\* Small scopes of documents.
EXTENDS Values

Leaves == {Num("1"), Num("2"), Null, Arr(<<Num("1")>>), EmptyObj}
ObjsOver(ks, vals) == UNION {{Obj(f) : f \in [q -> vals]} : q \in SUBSET ks}
Small == ObjsOver({"a", "b"}, {Num("1"), Arr(<<Num("1")>>)})
Docs1 == ObjsOver({"a", "b"}, Leaves)
Docs2 == ObjsOver({"a", "b"}, {Num("1"), Null} \cup Small)
Nested == ObjsOver({"a"}, Docs1 \cup {Num("1"), Null})
Docs3 == ObjsOver({"a"}, Docs2) \cup Docs1
=============================================================================
