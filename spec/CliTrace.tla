------------------------------ MODULE CliTrace -------------------------------
\* Recorded runs of the command. All runs of a case start from the same state.
EXTENDS Cli, TraceLoop

RunsAccept(c) == \A i \in 1..Len(c.out.runs) : Observed(c, c.out.runs[i])
\* and leave the same bytes; what is done with messages is not said
SameBytes(c) == \A i \in 1..Len(c.out.runs) :
    LET a == c.out.runs[1]
        b == c.out.runs[i]
    IN a.bytes = b.bytes /\ a.exit = b.exit /\ a.stdout = b.stdout /\ a.files = b.files /\ (a.exit = 0 => a.stderr = b.stderr)
RepeatsAccept(c) == SameBytes(c) /\ Observed(c, c.out.runs[1])
\* runs which were asked to stop, or whose writes may fail
Stopped(c, r) == LET w == Run(c) IN Nothing0(c, r) \/ (~IsFail(w) /\ Good(c, w.ok, r))
StoppedAccept(c) == \A i \in 1..Len(c.out.runs) : Stopped(c, c.out.runs[i])
\* runs which were killed: nothing that was there is lost, the output is what it was or complete
Killed(c, r) == LET w == Run(c) IN
    Stopped(c, r) \/
        (r.exit # 0 /\ \A i \in 1..Len(r.files) : LET f == r.files[i] IN
            \/ f.now = "same"
            \/ ~IsFail(w) /\ f.path = w.ok.output /\ "text" \in DOMAIN f /\ IsText(f.text, w.ok.docs, w.ok.format)
            \/ ~IsFail(w) /\ f.path # w.ok.output /\ f.now = "new")
KilledAccept(c) == \A i \in 1..Len(c.out.runs) : Killed(c, c.out.runs[i])
\* runs one after another, each from what the ones before left
Accepted1(c, r) == IF "inject" \in DOMAIN c THEN (IF c.inject.kill = "yes" THEN Killed(c, r) ELSE Stopped(c, r))
                   ELSE IF "fsize" \in DOMAIN c THEN Stopped(c, r)
                   ELSE Observed(c, r)
HistoryAccepts(c) == \A i \in 1..Len(c.steps) : Accepted1(c.steps[i], c.out.runs[i])
CliAccepts(c) == CASE c.want = "run" -> RunsAccept(c)
                   [] c.want = "repeat" -> RepeatsAccept(c)
                   [] c.want = "same" -> SameBytes(c)    \* of some projects no more is said
                   [] c.want = "history" -> HistoryAccepts(c)
                   [] c.want = "stop" -> StoppedAccept(c)
                   [] c.want = "kill" -> KilledAccept(c)
=============================================================================
