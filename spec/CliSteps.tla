------------------------------- MODULE CliSteps -------------------------------
(***************************************************************************)
(* A history of runs of the command in one directory, phase by phase, with a     *)
(* fault in any of the phases, signals which ask it to stop and kills at any time.   *)
(* The document is written to a file of its own, which then takes the place of the    *)
(* output. Each run either fails, having written nothing and left the output file      *)
(* as it was, or ends well with the complete document at its destination and nothing     *)
(* anywhere else; one that is killed leaves one of the two. At no time, in whatever         *)
(* state a run is, has the output file anything but what was there or a whole document.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxRuns, Signals, Emit
VARIABLES runs,      \* runs that ended: [fault, dest, signal, killed, placed, exit, file, out, err]
          cur,       \* the run that is on
          file,      \* the output file: "none", "old", or the document of a run
          tmp        \* the file beside it: "none", "part" or the document
vars == <<runs, cur, file, tmp>>

Phases == <<"flags", "config", "load", "specs", "merge", "resolve", "format", "open", "write", "place">>
Faults == {"none", "flags", "config", "load", "specs", "merge", "resolve", "format", "open", "write", "place"}
Dests == {"file", "stdout", "stderr"}
NoRun == [phase |-> 0]
Idle == cur = NoRun

Init == runs = <<>> /\ cur = NoRun /\ file \in {"none", "old"} /\ tmp = "none"
Start == /\ Idle /\ Len(runs) < MaxRuns
         /\ \E f \in Faults, d \in Dests :
              /\ f \in {"open", "place"} => d = "file"
              /\ cur' = [phase |-> 1, n |-> Len(runs) + 1, fault |-> f, dest |-> d, before |-> file, signal |-> 0, out |-> "", err |-> ""]
         /\ UNCHANGED <<runs, file, tmp>>
DocOf(n) == "doc" \o ToString(n)
At(p) == ~Idle /\ cur.phase > 0 /\ cur.phase <= Len(Phases) /\ Phases[cur.phase] = p
Fine(p) == At(p) /\ cur.fault # p
ToFile == cur.dest = "file"
\* every phase but the last ones only computes
Step == /\ ~Idle /\ cur.phase \in 1..7
        /\ Phases[cur.phase] # cur.fault
        /\ cur' = [cur EXCEPT !.phase = @ + 1]
        /\ UNCHANGED <<runs, file, tmp>>
Rec(exit, killed, placed, f) == [fault |-> cur.fault, dest |-> cur.dest, signal |-> cur.signal, killed |-> killed, placed |-> placed, exit |-> exit,
                         before |-> cur.before, file |-> f, out |-> cur.out, err |-> cur.err]
Stop0(run) == cur' = NoRun /\ runs' = Append(runs, run)
FailNow == /\ ~Idle /\ cur.phase \in 1..10
           /\ \/ Phases[cur.phase] = cur.fault
              \/ cur.signal > 0 /\ cur.phase \in 3..4    \* loading is given up
           /\ file' = file
           /\ tmp' = (IF cur.phase > 8 THEN "none" ELSE tmp)    \* what was begun is removed
           /\ Stop0(Rec(1, FALSE, FALSE, file))
Open == /\ Fine("open")
        /\ tmp' = (IF ToFile THEN "part" ELSE tmp)
        /\ cur' = [cur EXCEPT !.phase = @ + 1]
        /\ file' = file /\ UNCHANGED runs
Write == /\ Fine("write")
         /\ tmp' = (IF ToFile THEN DocOf(cur.n) ELSE tmp)
         /\ cur' = [cur EXCEPT !.phase = @ + 1, !.out = IF cur.dest = "stdout" THEN DocOf(cur.n) ELSE "",
                               !.err = IF cur.dest = "stderr" THEN DocOf(cur.n) ELSE ""]
         /\ file' = file /\ UNCHANGED runs
Place == /\ Fine("place")
         /\ file' = (IF ToFile THEN tmp ELSE file)
         /\ tmp' = (IF ToFile THEN "none" ELSE tmp)
         /\ Stop0(Rec(0, FALSE, ToFile, file'))
Signal == /\ Signals /\ ~Idle /\ cur.phase > 0 /\ cur.signal = 0
          /\ cur' = [cur EXCEPT !.signal = 1]
          /\ UNCHANGED <<runs, file, tmp>>
\* killed, at any time: at once, or just after the file is placed
Kill == /\ Signals /\ ~Idle
        /\ \/ UNCHANGED <<file, tmp>> /\ Stop0(Rec(137, TRUE, FALSE, file))
           \/ Fine("place") /\ ToFile /\ file' = tmp /\ tmp' = "none" /\ Stop0(Rec(137, TRUE, TRUE, file'))
Next == Start \/ Step \/ FailNow \/ Open \/ Write \/ Place \/ Signal \/ Kill
Spec == Init /\ [][Next]_vars /\ WF_vars(Step \/ FailNow \/ Open \/ Write \/ Place)

\* what is demanded of each run
Outcome == \A i \in 1..Len(runs) : LET r == runs[i] IN
    /\ r.exit = 0 => /\ r.fault = "none" \/ (r.fault = "place" /\ r.dest # "file")
                     /\ (r.dest = "file") => r.file = DocOf(i)
                     /\ (r.dest # "file") => r.file = r.before
                     /\ r.out = (IF r.dest = "stdout" THEN DocOf(i) ELSE "")
                     /\ r.err = (IF r.dest = "stderr" THEN DocOf(i) ELSE "")
    /\ (r.exit # 0 /\ ~r.killed) => r.file = r.before /\ r.out = "" /\ r.err = ""
    /\ r.killed => r.file \in {r.before} \cup (IF r.dest = "file" THEN {DocOf(i)} ELSE {})
    /\ (r.fault = "none" /\ r.signal = 0 /\ ~r.killed) => r.exit = 0
\* a file is what the last run that placed one wrote
LastGood == \A i \in 1..Len(runs) :
    LET S == {j \in 1..i : runs[j].placed} IN
    runs[i].file = (IF S = {} THEN runs[1].before ELSE DocOf(CHOOSE j \in S : \A k \in S : k <= j))
\* before it is placed the file is as it was
Untouched == ~Idle => file = cur.before
Whole == file \in {"none", "old"} \cup {DocOf(n) : n \in 1..MaxRuns}
\* what a failing run began does not stay
Clean == (Idle /\ runs # <<>> /\ (\A i \in 1..Len(runs) : ~runs[i].killed)) => tmp = "none"
Ends == ~Idle ~> Idle

\* histories without signals, to be replayed
Hist == [i \in 1..Len(runs) |-> [fault |-> runs[i].fault, dest |-> runs[i].dest, exit |-> runs[i].exit, killed |-> runs[i].killed]]
Quiet == \A i \in 1..Len(runs) : runs[i].signal = 0
EmitHist == (Emit /\ Idle /\ Len(runs) = MaxRuns /\ Quiet) => PrintT("HIST " \o ToJson([runs |-> Hist, file |-> runs[1].before]))
=============================================================================
