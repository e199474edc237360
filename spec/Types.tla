-------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* Go types, what pointers address in them, and their schemas.               *)
(*                                                                         *)
(* A program D maps packages to their types, by name. A type is one of        *)
(*   [k |-> "basic", b]        [k |-> "named", p, n]                         *)
(*   [k |-> "ptr" / "slice" / "chan", t]   [k |-> "array", t, len]            *)
(*   [k |-> "map", t, key]     [k |-> "struct", f], f a sequence of fields    *)
(*   [k |-> "other", src]      functions, interfaces, ...                     *)
(* A field has a name n, type t, is embedded (emb) or not, exported (x) or     *)
(* not, and has a tag (see Tags) whose text is tag.                           *)
(***************************************************************************)
EXTENDS Tags, Pointer

RECURSIVE Und(_, _)
Und(D, t) == IF t.k = "named" THEN Und(D, D[t.p][t.n]) ELSE t

Elementers == {"ptr", "slice", "array", "map"}

(***************************************************************************)
(* Addresses.                                                               *)
(***************************************************************************)
\* the types one step below u: set of [tok, t]
Below(u) ==
    CASE u.k = "struct" -> {[tok |-> u.f[i].n, t |-> u.f[i].t] : i \in {j \in 1..Len(u.f) : u.f[j].x}}
      [] u.k = "ptr" -> {[tok |-> "*", t |-> u.t]}
      [] u.k \in {"slice", "array", "map"} -> {[tok |-> "[]", t |-> u.t]}
      [] OTHER -> {}

RECURSIVE Walk(_, _, _, _)
Walk(D, u, toks, seen) ==
    IF toks = <<>> THEN [ok |-> u]
    ELSE IF u \in seen THEN Fail
    ELSE LET B == {b \in Below(u) : b.tok = toks[1]} IN
         IF B = {} THEN Fail
         ELSE Walk(D, Und(D, (CHOOSE b \in B : TRUE).t), Tail(toks), seen \cup {u})

\* type (without its name) which the pointer into package p addresses
TypeAt(D, p, toks) ==
    IF p \notin DOMAIN D \/ toks = <<>> THEN Fail
    ELSE IF toks[1] \notin DOMAIN D[p] THEN Fail
    ELSE Walk(D, Und(D, D[p][toks[1]]), Tail(toks), {})

(***************************************************************************)
(* Schemas.                                                                 *)
(***************************************************************************)
Opt(cond, k, v) == IF cond THEN k :> v ELSE NoKeys
KV(k, v) == k :> v

\* reference to a type. Structs without name are referred to by any pointer
\* that addresses them, but not by the one of a named type which is alike.
RefTo(D, t) ==
    IF t.k = "named" THEN
        IF t.p = "time" /\ t.n = "Time" THEN Obj(KV("type", Str("string")))
        ELSE Obj(KV("$ref", Str(GoText(t.p, <<t.n>>))))
    ELSE [anon |-> Und(D, t)]
IsRef(s) == "anon" \in DOMAIN s \/ HasKey(s, "$ref")

Small32 == {"int", "int8", "int16", "int32", "uint", "uint8", "uint16", "uint32"}
Unsigned64 == {"uint", "uint8", "uint16", "uint32", "uint64"}
Integers == Small32 \cup {"int64", "uint64"}

NumOpts(tg, unsigned) ==
    Opt(Has(tg, "mulof"), "multipleOf", NumVal(tg, "mulof"))
    @@ (IF Has(tg, "emin") THEN KV("minimum", NumVal(tg, "emin")) @@ KV("exclusiveMinimum", True)
        ELSE IF Has(tg, "min") THEN KV("minimum", NumVal(tg, "min"))
        ELSE Opt(unsigned, "minimum", Num("0")))
    @@ (IF Has(tg, "emax") THEN KV("maximum", NumVal(tg, "emax")) @@ KV("exclusiveMaximum", True)
        ELSE Opt(Has(tg, "max"), "maximum", NumVal(tg, "max")))
StrOpts(tg) == Opt(Has(tg, "maxlen"), "maxLength", NumVal(tg, "maxlen"))
               @@ Opt(Has(tg, "minlen"), "minLength", NumVal(tg, "minlen"))
               @@ Opt(TextOf(tg, "pattern") # "", "pattern", Str(TextOf(tg, "pattern")))

BasicSchema(b, tg) ==
    CASE b \in Integers ->
            [ok |-> Obj(KV("type", Str("integer"))
                        @@ KV("format", Str(IF b \in Small32 THEN "int32" ELSE "int64"))
                        @@ NumOpts(tg, b \in Unsigned64))]
      [] b \in {"float32", "float64"} ->
            [ok |-> Obj(KV("type", Str("number")) @@ KV("format", Str(IF b = "float32" THEN "float" ELSE "double"))
                        @@ NumOpts(tg, FALSE))]
      [] b = "bool" -> [ok |-> Obj(KV("type", Str("boolean")))]
      [] b = "string" -> [ok |-> Obj(KV("type", Str("string")) @@ StrOpts(tg))]
      [] OTHER -> Fail

\* the type option of a tag
TypeSchema(name, tg) ==
    LET S(f) == [ok |-> Obj(KV("type", Str("string")) @@ KV("format", Str(f)) @@ StrOpts(tg))] IN
    CASE name \in Integers \cup {"string", "float32", "float64", "bool"} -> BasicSchema(name, tg)
      [] name = "integer" -> BasicSchema("int32", tg)
      [] name = "float" -> BasicSchema("float32", tg)
      [] name = "double" -> BasicSchema("float64", tg)
      [] name = "base64" -> S("binary")
      [] name \in {"uuid", "password"} -> S(name)
      [] name = "number" -> [ok |-> Obj(KV("type", Str("number")) @@ NumOpts(tg, FALSE))]
      [] name = "object" -> [ok |-> Obj(KV("type", Str("object"))
                                @@ Opt(Has(tg, "minprops"), "minProperties", NumVal(tg, "minprops"))
                                @@ Opt(Has(tg, "maxprops"), "maxProperties", NumVal(tg, "maxprops")))]
      [] OTHER -> Fail

Nullable(tg, default) == IF Has(tg, "nullable") THEN Flag(tg, "nullable") ELSE default
ItemOpts(tg) == Opt(Has(tg, "minitems"), "minItems", NumVal(tg, "minitems"))
                @@ Opt(Flag(tg, "unique"), "uniqueItems", True)

\* fields of struct u, those of embedded structs in place: sequence of
\* [f, depth], or failure
Struct(D, t) == LET v == Und(D, t) IN IF v.k = "ptr" THEN Und(D, v.t) ELSE v
Inlined(D, f) == Struct(D, f.t).k = "struct"
                 /\ IF Has(Options(f), "inline") THEN Flag(Options(f), "inline") ELSE f.emb
\* fields of an embedded struct count even if its type is not exported
Promoted(D, f) == Inlined(D, f) /\ (f.x \/ f.emb)
RECURSIVE Collect(_, _, _, _)
Collect(D, u, i, seen) ==
    IF i > Len(u.f) \/ (i = 1 /\ u \in seen) THEN [ok |-> <<>>]
    ELSE IF TagError(u.f[i]) THEN Fail
    ELSE LET f == u.f[i]
             rest == Collect(D, u, i + 1, seen)
             here == IF Ignored(f) THEN [ok |-> <<>>]
                     ELSE IF Promoted(D, f) THEN Collect(D, Struct(D, f.t), 1, seen \cup {u})
                     ELSE IF ~f.x THEN [ok |-> <<>>]
                     ELSE [ok |-> <<[f |-> f, depth |-> Cardinality(seen) + 1]>>]
         IN IF IsFail(here) \/ IsFail(rest) THEN Fail ELSE [ok |-> here.ok \o rest.ok]
Name(f) == IF TagName(f) # "" THEN TagName(f) ELSE f.n
\* a field of an outer struct hides those of the embedded ones of the same name
Visible(q) ==
    LET hidden(i) == \E j \in 1..Len(q) : Name(q[j].f) = Name(q[i].f) /\
                        (q[j].depth < q[i].depth \/ (q[j].depth = q[i].depth /\ j > i))
    IN {i \in 1..Len(q) : ~hidden(i)}

\* schema of type t used as an element, seen being the types it is in
RECURSIVE Schema(_, _, _, _), StructSchema(_, _), FieldSchema(_, _, _)
Schema(D, t, seen, tg) ==
    LET u == Und(D, t)
        elem == Schema(D, u.t, seen \cup {u}, tg)
    IN IF u \in seen THEN [ok |-> RefTo(D, t)]
       ELSE CASE u.k = "basic" -> BasicSchema(u.b, tg)
              [] u.k = "struct" -> IF seen = {} THEN StructSchema(D, u) ELSE [ok |-> RefTo(D, t)]
              [] u.k = "map" ->
                    IF IsFail(elem) THEN Fail
                    ELSE [ok |-> Obj(KV("type", Str("object")) @@ KV("additionalProperties", elem.ok)
                                     @@ Opt(Nullable(tg, TRUE), "nullable", True)
                                     @@ Opt(Has(tg, "minprops"), "minProperties", NumVal(tg, "minprops"))
                                     @@ Opt(Has(tg, "maxprops"), "maxProperties", NumVal(tg, "maxprops")))]
              [] u.k = "slice" ->
                    IF IsFail(elem) THEN Fail
                    ELSE [ok |-> Obj(KV("type", Str("array")) @@ KV("items", elem.ok)
                                     @@ Opt(Nullable(tg, TRUE), "nullable", True) @@ ItemOpts(tg)
                                     @@ Opt(Has(tg, "maxitems"), "maxItems", NumVal(tg, "maxitems")))]
              [] u.k = "array" ->
                    IF IsFail(elem) THEN Fail
                    ELSE [ok |-> Obj(KV("type", Str("array")) @@ KV("items", elem.ok)
                                     @@ Opt(Nullable(tg, FALSE), "nullable", True) @@ ItemOpts(tg)
                                     @@ (IF u.len > 0 THEN KV("maxItems", Num(Numeral(u.len)))
                                         ELSE Opt(Has(tg, "maxitems"), "maxItems", NumVal(tg, "maxitems"))))]
              [] u.k = "ptr" ->
                    IF IsFail(elem) THEN Fail
                    ELSE IF ~Nullable(tg, TRUE) THEN
                        [ok |-> IF IsRef(elem.ok) THEN elem.ok ELSE Without(elem.ok, {"nullable"})]
                    ELSE IF IsRef(elem.ok) THEN
                        [ok |-> Obj(KV("oneOf", Arr(<<elem.ok, Obj(KV("type", Str("object")) @@ KV("nullable", True))>>)))]
                    ELSE [ok |-> Put(elem.ok, "nullable", True)]
              [] OTHER -> Fail

FieldSchema(D, f, u) ==
    LET tg == Options(f)
        s == IF TextOf(tg, "type") # "" THEN TypeSchema(Val(tg, "type"), tg)
             ELSE IF Und(D, f.t).k = "struct" THEN [ok |-> RefTo(D, f.t)]
             ELSE Schema(D, f.t, {u}, tg)
        Add(v, c, k, x) == IF c THEN Put(v, k, x) ELSE v
    IN IF IsFail(s) \/ IsRef(s.ok) THEN s
       ELSE LET a == Add(s.ok, Flag(tg, "deprecated"), "deprecated", True)
                b == Add(a, Flag(tg, "readonly"), "readOnly", True)
                c == Add(b, Flag(tg, "writeonly"), "writeOnly", True)
                d == Add(c, TextOf(tg, "format") # "", "format", Str(TextOf(tg, "format")))
            IN [ok |-> IF ~Has(tg, "nullable") THEN d
                       ELSE IF Flag(tg, "nullable") THEN Put(d, "nullable", True) ELSE Without(d, {"nullable"})]

StructSchema(D, u) ==
    LET q == Collect(D, u, 1, {}) IN
    IF IsFail(q) THEN Fail
    ELSE LET vis == Visible(q.ok)
             s == [i \in vis |-> FieldSchema(D, q.ok[i].f, u)]
             One(n) == CHOOSE i \in vis : Name(q.ok[i].f) = n
             names == {Name(q.ok[i].f) : i \in vis}
             \* in the order of the fields
             req == SelectSeq([i \in 1..Len(q.ok) |->
                        IF i \in vis /\ Flag(Options(q.ok[i].f), "required") THEN Str(Name(q.ok[i].f)) ELSE Null],
                        LAMBDA x : x # Null)
         IN IF \E i \in vis : IsFail(s[i]) THEN Fail
            ELSE [ok |-> Obj(KV("type", Str("object"))
                             @@ Opt(vis # {}, "properties", Obj([n \in names |-> s[One(n)].ok]))
                             @@ Opt(req # <<>>, "required", Arr(req)))]

\* schema a pointer resolves to
Resolved(D, p, toks) ==
    LET u == TypeAt(D, p, toks) IN IF IsFail(u) THEN Fail ELSE Schema(D, u.ok, {}, <<>>)

(***************************************************************************)
(* Is v the specified schema s? Structs without name are referred to by some  *)
(* pointer that addresses such a struct; the order of required is free.        *)
(***************************************************************************)
RECURSIVE Fits(_, _, _)
Fits(D, s, v) ==
    IF "anon" \in DOMAIN s THEN
        /\ Keys(v) = {"$ref"} /\ IsStr(v.o["$ref"])
        /\ LET p == ParsePtr(Text(v.o["$ref"])) IN
           ~IsFail(p) /\ p.ok.scheme = "go" /\ Len(p.ok.toks) > 1 /\ TypeAt(D, p.ok.pkg, p.ok.toks) = [ok |-> s.anon]
    ELSE IF IsObj(s) THEN
        /\ IsObj(v) /\ Keys(s) = Keys(v)
        /\ \A k \in Keys(s) :
             IF k = "required" /\ IsArr(s.o[k]) THEN
                IsArr(v.o[k]) /\ Len(v.o[k].a) = Len(s.o[k].a) /\ Elems(v.o[k].a) = Elems(s.o[k].a)
             ELSE Fits(D, s.o[k], v.o[k])
    ELSE IF IsArr(s) THEN
        IsArr(v) /\ Len(s.a) = Len(v.a) /\ \A i \in 1..Len(s.a) : Fits(D, s.a[i], v.a[i])
    ELSE s = v
=============================================================================
