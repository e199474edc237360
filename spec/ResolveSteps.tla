---------------------------- MODULE ResolveSteps -----------------------------
(***************************************************************************)
(* Resolving one reference after another, in any order, with a stack of the  *)
(* types being expanded, components being put into the document when they     *)
(* are done. Checked over all graphs of three types with up to two references *)
(* each, and all sets of exports: it ends, whatever the order the result is    *)
(* the document that Resolve specifies, and this has no external reference    *)
(* left and no local one that dangles.                                        *)
(***************************************************************************)
EXTENDS Resolve, SequencesExt

CONSTANTS Graphs, DocRefs, ExportSets

Ts == <<"go://p#/A", "go://p#/B", "go://p#/C">>
NameOf(t) == CASE t = Ts[1] -> "A" [] t = Ts[2] -> "B" [] t = Ts[3] -> "C" [] OTHER -> "D"
Ref(i) == Obj("$ref" :> Str(IF i = 0 THEN "go://p#/None" ELSE IF i = 4 THEN "#/components/schemas/L" ELSE Ts[i]))
Node(n, q) == Obj(("is" :> Str(n)) @@ (IF Len(q) > 0 THEN "x.y" :> Ref(q[1]) ELSE NoKeys)
                  @@ (IF Len(q) > 1 THEN "z" :> Arr(<<Null, Ref(q[2])>>) ELSE NoKeys))
EnvOf(g) == [t \in Elems(Ts) |-> [ok |-> Node(NameOf(t), g[CHOOSE i \in 1..3 : Ts[i] = t])]]
\* 9: the document has a component B of its own
DocOf(q) == LET r == SelectSeq(q, LAMBDA i : i # 9) IN
    Obj(("paths" :> Arr([i \in 1..Len(r) |-> Ref(r[i])])) @@ ("openapi" :> Str("3"))
        @@ (IF 9 \in Elems(q) THEN "components" :> Obj("schemas" :> Obj("B" :> Obj("is" :> Str("own")))) ELSE NoKeys))
ExportsOf(S) == [t \in {Ts[i] : i \in S} |-> NameOf(t)]
RefSeqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
AllGraphs == {<<a, b, c>> : a, b, c \in RefSeqs({1, 2, 3}, 2)}
FewGraphs == {<<a, b, c>> : a \in {<<2>>, <<1, 3>>, <<2, 2>>, <<3, 2>>}, b \in {<<>>, <<1>>, <<3, 2>>, <<2>>},
                              c \in RefSeqs({0, 1, 3, 4}, 1)}
\* 0 is missing, 4 is local
SomeGraphs == {<<a, b, c>> : a \in RefSeqs({1, 2, 3}, 2), b \in RefSeqs({1, 2}, 2), c \in RefSeqs({0, 1, 4}, 1)}
OneDoc == {<<1, 2>>}
FewDocs == {<<1>>, <<1, 2>>, <<3, 1, 9>>}
Cycle == {<< <<2>>, <<1>>, <<>> >>}
AllExports == SUBSET {1, 2, 3}

VARIABLES env, exports, doc,   \* what is resolved
          con, defs,           \* the document so far, components defined
          stack,               \* what is being expanded: [at, ptr, v, todo]
          failed
vars == <<env, exports, doc, con, defs, stack, failed>>

\* places of references in v
RECURSIVE RefPlaces(_)
RefPlaces(v) ==
    IF IsScalar(v) THEN {}
    ELSE IF IsArr(v) THEN UNION {{<<Numeral(i - 1)>> \o p : p \in RefPlaces(v.a[i])} : i \in 1..Len(v.a)}
    ELSE (IF RefOf(v) # NoRef THEN {<<>>} ELSE {}) \cup UNION {{<<k>> \o p : p \in RefPlaces(v.o[k])} : k \in Keys(v)}

Frame(at, ptr, v) == [at |-> at, ptr |-> ptr, v |-> v, todo |-> RefPlaces(v)]

Init == /\ \E g \in Graphs : env = EnvOf(g)
        /\ \E q \in DocRefs : doc = DocOf(q)
        /\ \E S \in ExportSets : exports = ExportsOf(S)
        /\ con = doc /\ defs = {} /\ failed = FALSE
        /\ stack = <<Frame(<<>>, "", doc)>>

Top == stack[Len(stack)]
\* types on the stack which the type of the top is inside of: those below an
\* exported one do not count
OnPath(t) == \E i \in 2..Len(stack) :
                /\ stack[i].ptr = t
                /\ \/ t \in DOMAIN exports
                   \/ \A j \in (i + 1)..Len(stack) : stack[j].ptr \notin DOMAIN exports
Put1(v, p, x) == Set(v, p, x).ok
Update(st, p, x) == [st EXCEPT ![Len(st)].v = Put1(@, p, x), ![Len(st)].todo = @ \ {p}]
MkLocal(v, t) == Put(v, "$ref", LocalRef(exports[t]))

Take(p) ==
    LET v == At(Top.v, p)
        r == RefOf(v)
        t == PtrText(r.ok)
    IN /\ p \in Top.todo
       /\ IF IsFail(r) \/ (~OnPath(t) /\ IsFail(Lookup(env, t))) THEN
             failed' = TRUE /\ stack' = <<>> /\ UNCHANGED <<env, exports, doc, con, defs>>
          ELSE IF OnPath(t) THEN
             /\ stack' = Update(stack, p, IF t \in DOMAIN exports THEN MkLocal(v, t) ELSE EmptyObj)
             /\ UNCHANGED <<env, exports, doc, con, defs, failed>>
          ELSE /\ stack' = Append(stack, Frame(p, t, env[t].ok))
               /\ UNCHANGED <<env, exports, doc, con, defs, failed>>

\* the type on top is done
Return ==
    /\ Len(stack) > 1 /\ Top.todo = {}
    /\ LET st == Front(stack)
           v == At(st[Len(st)].v, Top.at)
       IN IF Top.ptr \in DOMAIN exports THEN
             IF Top.ptr \notin defs /\ Exists(doc, Place(exports[Top.ptr])) THEN
                failed' = TRUE /\ stack' = <<>> /\ UNCHANGED <<con, defs>>
             ELSE /\ con' = Put1(con, Place(exports[Top.ptr]), Top.v)
                  /\ defs' = defs \cup {Top.ptr}
                  /\ stack' = Update(st, Top.at, MkLocal(v, Top.ptr))
                  /\ UNCHANGED failed
          ELSE stack' = Update(st, Top.at, Top.v) /\ UNCHANGED <<con, defs, failed>>
    /\ UNCHANGED <<env, exports, doc>>

\* the document itself is the bottom of the stack; components go into it
Finish == /\ Len(stack) = 1 /\ Top.todo = {}
          /\ con' = [o |-> Top.v.o @@ con.o]
          /\ stack' = <<>>
          /\ UNCHANGED <<env, exports, doc, defs, failed>>

Next == (stack # <<>> /\ \E p \in Top.todo : Take(p)) \/ Return \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>(stack = <<>>)
Final == stack = <<>> =>
    LET want == Resolve(env, exports, doc) IN
    IF IsFail(want) THEN failed
    ELSE ~failed /\ con = want.ok /\ NoExternal(con) /\ NoDangling(con, {"#/components/schemas/L"})
\* depth is bounded by the number of types
Shallow == Len(stack) <= 1 + 2 * Len(Ts) * Len(Ts)
=============================================================================
