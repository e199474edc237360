------------------------------ MODULE TagsEnum ------------------------------
(***************************************************************************)
(* Fields of every kind with every option, and with every two options.       *)
(***************************************************************************)
EXTENDS Types, TLC, IOUtils, Json, SequencesExt

P == "ex.com/a"
B(b) == [k |-> "basic", b |-> b]
St == [k |-> "named", p |-> P, n |-> "S"]
FieldTypes == {B("int"), B("uint8"), B("int64"), B("float32"), B("bool"), B("string"), St,
               [k |-> "ptr", t |-> St], [k |-> "ptr", t |-> B("uint64")], [k |-> "slice", t |-> B("string")],
               [k |-> "slice", t |-> St], [k |-> "map", t |-> B("float64"), key |-> "string"],
               [k |-> "array", t |-> B("int"), len |-> 3], [k |-> "array", t |-> B("string"), len |-> 0],
               [k |-> "ptr", t |-> [k |-> "slice", t |-> B("bool")]], [k |-> "named", p |-> P, n |-> "Str"]}
TypeNames == {"integer", "float", "double", "base64", "uuid", "password", "number", "object", "string", "int64", "bool", "text"}

Values1(k) == CASE k \in Bools \cup Tri -> {"", "true", "false", "1", "0", "yes"}
                [] k \in Ints -> {"0", "3", "-1", "010", "+8", "x", "", "1.5", "0x10"}
                [] k \in Nums -> {"0", "3", "-1.5", "010.50", "+1e3", ".5", "x", "", "1.2.3", "1e"}
                [] k = "pattern" -> {"^[a-z]+$", ""}
                [] k = "format" -> {"email", ""}
                [] k = "type" -> TypeNames
Values2(k) == CASE k \in Bools \cup Tri -> {"true"}
                [] k \in Ints -> {"3"}
                [] k \in Nums -> {"2.5"}
                [] k = "pattern" -> {"^a$"}
                [] k = "format" -> {"email"}
                [] k = "type" -> {"number", "string", "object"}
Opts(V(_)) == UNION {{[k |-> k, v |-> v] : v \in V(k)} : k \in OapiOpts}

Fields == {[t |-> t, oo |-> <<a>>] : t \in FieldTypes, a \in Opts(Values1)}
          \cup {[t |-> t, oo |-> <<a, b>>] : t \in FieldTypes, a \in Opts(Values2), b \in Opts(Values2)}

VARIABLE fld
Init == fld \in {f \in Fields : Len(f.oo) = 1 \/ f.oo[1].k # f.oo[2].k}
Next == UNCHANGED fld
Spec == Init /\ [][Next]_fld

D == P :> [S |-> [k |-> "struct", f |-> <<>>], Str |-> B("string")]
Fld(oo) == [n |-> "F", t |-> fld.t, emb |-> FALSE, x |-> TRUE, tag |-> "", jn |-> "", jo |-> <<>>, on |-> "", oo |-> oo]
Of(oo) == LET f == Fld(oo) IN
    IF Inlined(D, f) THEN Fail ELSE FieldSchema(D, f, [k |-> "struct", f |-> <<f>>])

\* keywords which an option is about
About(k) == CASE k = "min" -> {"minimum"} [] k = "max" -> {"maximum"}
              [] k = "emin" -> {"minimum", "exclusiveMinimum"} [] k = "emax" -> {"maximum", "exclusiveMaximum"}
              [] k = "mulof" -> {"multipleOf"} [] k = "minlen" -> {"minLength"} [] k = "maxlen" -> {"maxLength"}
              [] k = "minitems" -> {"minItems"} [] k = "maxitems" -> {"maxItems"} [] k = "unique" -> {"uniqueItems"}
              [] k = "minprops" -> {"minProperties"} [] k = "maxprops" -> {"maxProperties"}
              [] k = "pattern" -> {"pattern"} [] k = "format" -> {"format"} [] k = "readonly" -> {"readOnly"}
              [] k = "writeonly" -> {"writeOnly"} [] k = "deprecated" -> {"deprecated"}
              [] k = "nullable" -> {"nullable", "oneOf", "$ref", "type"}
              [] OTHER -> {}
\* one option changes nothing but its own keywords, of the field or of its elements
RECURSIVE Strip(_, _)
Strip(v, ks) == IF "anon" \in DOMAIN v THEN v
                ELSE Obj([k \in Keys(v) \ ks |->
                        IF k \in {"items", "additionalProperties"} THEN Strip(v.o[k], ks) ELSE v.o[k]])
Own == \A i \in 1..Len(fld.oo) :
        LET o == fld.oo[i]
            with == Of(fld.oo)
            wout == Of(SelectSeq(fld.oo, LAMBDA x : x.k # o.k))
        IN o.k \notin {"type", "inline"} /\ ~IsFail(with) /\ ~IsFail(wout) =>
              Strip(with.ok, About(o.k)) = Strip(wout.ok, About(o.k))
\* a wrong value is an error of the struct
Wrong == (\E i \in 1..Len(fld.oo) : BadValue(fld.oo[i]) /\ fld.oo[i].k \in OapiOpts)
         => IsFail(StructSchema(D, [k |-> "struct", f |-> <<Fld(fld.oo)>>]))

Dump == ndJsonSerialize(IOEnv.ENUM, SetToSeq(Fields))
DumpSpec == fld = 0 /\ Dump /\ [][Next]_fld
=============================================================================
