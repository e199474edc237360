---------------------------- MODULE ContainerOps -----------------------------
(***************************************************************************)
(* Operations on several documents (containers): what each of them does to    *)
(* the values of the handles. Whatever is put into a document is copied.       *)
(***************************************************************************)
EXTENDS Merge

NoVal == Null

\* Apply(st, op): next state, whether the operation failed, and its value
Res(st, err, val) == [st |-> st, err |-> err, val |-> val]
Ok(st) == Res(st, FALSE, NoVal)

Apply(st, op) ==
    LET h == op.h IN
    CASE op.op = "make" -> Ok([st EXCEPT ![h] = op.v])
      [] op.op \in {"makefrom", "makedata", "clone"} -> Ok([st EXCEPT ![h] = st[op.from]])
      [] op.op = "replace" -> Ok([st EXCEPT ![h] = st[op.from]])
      [] op.op \in {"set", "setfrom", "setdata"} ->
            LET r == Set(st[h], op.p, IF op.op = "set" THEN op.v ELSE st[op.from]) IN
            IF IsFail(r) THEN Res(st, TRUE, NoVal) ELSE Ok([st EXCEPT ![h] = r.ok])
      [] op.op = "merge" ->
            LET r == MergeDocs(op.pol, st[h], st[op.from]) IN
            IF IsFail(r) THEN Res(st, TRUE, NoVal) ELSE Ok([st EXCEPT ![h] = r.ok])
      [] op.op = "mergeall" ->
            LET r == MergeAll(op.pol, [i \in 1..Len(op.all) |-> st[op.all[i]]]) IN
            IF IsFail(r) THEN Res(st, TRUE, NoVal) ELSE Ok([st EXCEPT ![h] = r.ok])
      [] op.op = "get" -> Res(st, FALSE, IF Exists(st[h], op.p) THEN At(st[h], op.p) ELSE Scalar("missing"))
=============================================================================
