--------------------------- MODULE ContainersTrace ---------------------------
\* Recorded histories: after each operation the values of all handles, the
\* value read and whether it failed are those of the specification.
EXTENDS ContainerOps, TraceLoop

\* what a strict merge which failed left in its destination is not specified
Failed(st, op) == op.op = "merge" /\ Apply(st, op).err

RECURSIVE Follow(_, _, _)
Follow(st, ops, recs) ==
    IF ops = <<>> THEN recs = <<>>
    ELSE /\ recs # <<>>
         /\ LET want == Apply(st, ops[1])
                got == recs[1]
            IN /\ got.err = want.err
               /\ got.val = want.val
               /\ \A h \in DOMAIN st :
                    got.st[h] = want.st[h] \/ (h = ops[1].h /\ Failed(st, ops[1]))
               /\ Follow([h \in DOMAIN st |-> got.st[h]], Tail(ops), Tail(recs))

ContainersAccepts(c) ==
    Follow([h \in Elems(c.handles) |-> EmptyObj], c.ops, c.out.ok)
=============================================================================
