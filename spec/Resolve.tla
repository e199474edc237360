------------------------------- MODULE Resolve -------------------------------
(***************************************************************************)
(* Replacing the references of a document.                                   *)
(*                                                                         *)
(* An environment env is a function from texts of pointers to what they        *)
(* denote, [ok |-> value], or Fail. exports is a function from texts of        *)
(* pointers to the names of components.                                       *)
(***************************************************************************)
EXTENDS Pointer

\* the reference an object is, [ok |-> pointer], Fail if it cannot be read,
\* and NoRef if it is none, or none that leads outside of the document
NoRef == [none |-> TRUE]
RefOf(v) ==
    IF ~HasKey(v, "$ref") THEN NoRef
    ELSE IF ~IsStr(v.o["$ref"]) THEN NoRef
    ELSE LET p == ParsePtr(Text(v.o["$ref"])) IN
         IF IsFail(p) THEN Fail ELSE IF p.ok.scheme = "" THEN NoRef ELSE p
IsRefTo(r) == "ok" \in DOMAIN r

Lookup(env, t) == IF t \in DOMAIN env THEN env[t] ELSE Fail
LocalRef(name) == Str("#" \o Percent(FragText(<<"components", "schemas", name>>)))

\* v with its references replaced, path being the types it is inside of. A
\* reference to an exported type becomes one to its component; to a type on the
\* path, the empty object; to any other one, what it denotes.
RECURSIVE Expand(_, _, _, _)
Expand(env, exports, v, path) ==
    LET Sub(x) == Expand(env, exports, x, path)
        r == RefOf(v)
        t == PtrText(r.ok)
        parts == IF IsObj(v) THEN [k \in Keys(v) |-> Sub(v.o[k])] ELSE [i \in 1..Len(v.a) |-> Sub(v.a[i])]
        failed == \E i \in DOMAIN parts : IsFail(parts[i])
        whole == IF IsObj(v) THEN Obj([k \in Keys(v) |-> parts[k].ok])
                 ELSE Arr([i \in 1..Len(v.a) |-> parts[i].ok])
    IN IF IsScalar(v) THEN [ok |-> v]
       ELSE IF failed \/ IsFail(r) THEN Fail
       ELSE IF ~IsRefTo(r) THEN [ok |-> whole]
       ELSE IF t \in DOMAIN exports THEN [ok |-> Put(whole, "$ref", LocalRef(exports[t]))]
       ELSE IF t \in path THEN [ok |-> EmptyObj]
       ELSE LET x == Lookup(env, t) IN
            IF IsFail(x) THEN Fail ELSE Expand(env, exports, x.ok, path \cup {t})

\* exported types which v refers to, on its own or by types it expands to
RECURSIVE Uses(_, _, _, _)
Uses(env, exports, v, path) ==
    IF IsScalar(v) THEN {}
    ELSE LET r == RefOf(v)
             t == PtrText(r.ok)
             below == IF IsObj(v) THEN UNION {Uses(env, exports, v.o[k], path) : k \in Keys(v)}
                      ELSE UNION {Uses(env, exports, v.a[i], path) : i \in 1..Len(v.a)}
         IN IF ~IsRefTo(r) THEN below
            ELSE IF t \in DOMAIN exports THEN below \cup {t}
            ELSE IF t \in path \/ IsFail(Lookup(env, t)) THEN below
            ELSE below \cup Uses(env, exports, Lookup(env, t).ok, path \cup {t})

RECURSIVE Close(_, _, _)
Close(env, exports, S) ==
    LET T == S \cup UNION {IF IsFail(Lookup(env, t)) THEN {} ELSE Uses(env, exports, env[t].ok, {}) : t \in S}
    IN IF T = S THEN S ELSE Close(env, exports, T)

\* the exported types that become components of doc
Needed(env, exports, doc) == Close(env, exports, Uses(env, exports, doc, {}))
Component(env, exports, t) ==
    IF IsFail(Lookup(env, t)) THEN Fail ELSE Expand(env, exports, env[t].ok, {})
Place(name) == <<"components", "schemas", name>>

RECURSIVE Define(_, _, _, _)
Define(env, exports, doc, S) ==
    IF S = {} THEN [ok |-> doc]
    ELSE LET t == CHOOSE t \in S : TRUE
             c == Component(env, exports, t)
             d == IF Exists(doc, Place(exports[t])) \/ IsFail(c) THEN Fail ELSE SetDoc(doc, Place(exports[t]), c.ok)
         IN IF IsFail(d) THEN Fail ELSE Define(env, exports, d.ok, S \ {t})

Resolve(env, exports, doc) ==
    LET d == Expand(env, exports, doc, {})
        S == Needed(env, exports, doc)
    IN IF IsFail(d) \/ (\E s, t \in S : s # t /\ exports[s] = exports[t]) \/
          (\E t \in S : Exists(doc, Place(exports[t]))) THEN Fail
       ELSE Define(env, exports, d.ok, S)

(***************************************************************************)
(* What is demanded of the result.                                            *)
(***************************************************************************)
RECURSIVE AllRefs(_)
AllRefs(v) == IF IsScalar(v) THEN {}
              ELSE IF IsArr(v) THEN UNION {AllRefs(v.a[i]) : i \in 1..Len(v.a)}
              ELSE (IF HasKey(v, "$ref") /\ IsStr(v.o["$ref"]) THEN {Text(v.o["$ref"])} ELSE {})
                   \cup UNION {AllRefs(v.o[k]) : k \in Keys(v)}
NoExternal(v) == \A x \in AllRefs(v) : LET p == ParsePtr(x) IN ~IsFail(p) /\ p.ok.scheme = ""
\* local references which were written point to something
NoDangling(v, given) == \A x \in AllRefs(v) \ given : Exists(v, ParsePtr(x).ok.toks)
=============================================================================
