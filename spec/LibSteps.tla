------------------------------- MODULE LibSteps -------------------------------
(***************************************************************************)
(* A process which calls the library again and again, also at the same time.      *)
(* Calls scan a place, whose files change between scans, with a value of the        *)
(* options, which calls share, or format what a scan gave. The process remembers      *)
(* what it computed (compiled patterns, schemas of known types), under keys which       *)
(* say all that was computed from. Whatever was called before, and whatever is called     *)
(* meanwhile, a scan gives the document of the files as they were and of its options,       *)
(* or the error of these; what it gave stays what it is, and so do the options.              *)
(* A scan whose context is cancelled ends with an error, or with the document.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Places, Versions, BadVersion, Options, Fmts, BadFmt, MaxCalls, MaxActive, MaxPuts, Cancels, Record
VARIABLES files,     \* place -> version
          opts,      \* option -> value
          calls,     \* sequence of calls
          memo,      \* what is remembered: key -> value
          puts, hist
vars == <<files, opts, calls, memo, puts, hist>>

Value(o) == <<"opt", o>>
Derived(ver, o) == <<"derived", ver, o>>
Key(p, ver, o) == <<ver, o>>                  \* all that it is derived from
Doc(ver, o) == <<"doc", ver, Value(o), Derived(ver, o)>>
Text(d, f) == <<"text", d, f>>
Fail == <<"fail">>
None == <<"none">>

Active(c) == c.at # "done"
ActiveOnes == {i \in 1..Len(calls) : Active(calls[i])}
Log(e) == hist' = IF Record THEN Append(hist, e) ELSE hist

Init == /\ files = [p \in Places |-> CHOOSE v \in Versions : v # BadVersion]
        /\ opts = [o \in Options |-> Value(o)]
        /\ calls = <<>> /\ memo = [k \in {} |-> None] /\ puts = 0 /\ hist = <<>>

Free == Len(calls) < MaxCalls /\ Cardinality(ActiveOnes) < MaxActive
BeginScan == /\ Free
             /\ \E p \in Places, o \in Options :
                  /\ calls' = Append(calls, [kind |-> "scan", place |-> p, opt |-> o, of |-> 0, fmt |-> "", at |-> "load",
                                             began |-> files[p], seen |-> 0, read |-> None, cancelled |-> FALSE, res |-> None])
                  /\ Log([do |-> "begin", n |-> Len(calls) + 1, kind |-> "scan", place |-> p, opt |-> o, of |-> 0, fmt |-> ""])
             /\ UNCHANGED <<files, opts, memo, puts>>
BeginFormat == /\ Free
               /\ \E i \in 1..Len(calls), f \in Fmts :
                    /\ calls[i].kind = "scan" /\ calls[i].at = "done" /\ calls[i].res # Fail
                    /\ calls' = Append(calls, [kind |-> "format", place |-> 0, opt |-> 0, of |-> i, fmt |-> f, at |-> "format",
                                               began |-> 0, seen |-> 0, read |-> None, cancelled |-> FALSE, res |-> None])
                    /\ Log([do |-> "begin", n |-> Len(calls) + 1, kind |-> "format", place |-> 0, opt |-> 0, of |-> i, fmt |-> f])
               /\ UNCHANGED <<files, opts, memo, puts>>
Set(i, c) == calls' = [calls EXCEPT ![i] = c]
End(i, r) == /\ Set(i, [calls[i] EXCEPT !.at = "done", !.res = r])
             /\ Log([do |-> "end", n |-> i, kind |-> calls[i].kind, place |-> 0, opt |-> 0, of |-> 0, fmt |-> ""])
Load(i) == /\ calls[i].at = "load"
           /\ IF files[calls[i].place] = BadVersion THEN End(i, Fail)
              ELSE Set(i, [calls[i] EXCEPT !.at = "options", !.seen = files[calls[i].place]]) /\ UNCHANGED hist
           /\ UNCHANGED <<files, opts, memo, puts>>
ReadOptions(i) == /\ calls[i].at = "options"
                  /\ Set(i, [calls[i] EXCEPT !.at = "derive", !.read = opts[calls[i].opt]])
                  /\ UNCHANGED <<files, opts, memo, puts, hist>>
Derive(i) == /\ calls[i].at = "derive"
             /\ LET k == Key(calls[i].place, calls[i].seen, calls[i].opt) IN
                memo' = IF k \in DOMAIN memo THEN memo ELSE (k :> Derived(calls[i].seen, calls[i].opt)) @@ memo
             /\ Set(i, [calls[i] EXCEPT !.at = "finish"])
             /\ UNCHANGED <<files, opts, puts, hist>>
Finish(i) == /\ calls[i].at = "finish"
             /\ End(i, <<"doc", calls[i].seen, calls[i].read, memo[Key(calls[i].place, calls[i].seen, calls[i].opt)]>>)
             /\ UNCHANGED <<files, opts, memo, puts>>
GiveUp(i) == /\ calls[i].kind = "scan" /\ Active(calls[i]) /\ calls[i].cancelled
             /\ End(i, Fail)
             /\ UNCHANGED <<files, opts, memo, puts>>
Format(i) == /\ calls[i].at = "format"
             /\ End(i, IF calls[i].fmt = BadFmt THEN Fail ELSE Text(calls[calls[i].of].res, calls[i].fmt))
             /\ UNCHANGED <<files, opts, memo, puts>>
Cancel(i) == /\ Cancels /\ calls[i].kind = "scan" /\ Active(calls[i]) /\ ~calls[i].cancelled
             /\ Set(i, [calls[i] EXCEPT !.cancelled = TRUE])
             /\ Log([do |-> "cancel", n |-> i, kind |-> "scan", place |-> 0, opt |-> 0, of |-> 0, fmt |-> ""])
             /\ UNCHANGED <<files, opts, memo, puts>>
\* files change while nothing scans them
Put == /\ puts < MaxPuts
       /\ \E p \in Places, v \in Versions :
            /\ v # files[p]
            /\ \A i \in ActiveOnes : calls[i].place # p
            /\ files' = [files EXCEPT ![p] = v]
            /\ Log([do |-> "put", n |-> v, kind |-> "", place |-> p, opt |-> 0, of |-> 0, fmt |-> ""])
       /\ puts' = puts + 1
       /\ UNCHANGED <<opts, calls, memo>>
Work(i) == Load(i) \/ ReadOptions(i) \/ Derive(i) \/ Finish(i) \/ Format(i)
Next == BeginScan \/ BeginFormat \/ Put \/ \E i \in 1..Len(calls) : Work(i) \/ GiveUp(i) \/ Cancel(i)
Spec == Init /\ [][Next]_vars /\ \A i \in 1..MaxCalls : WF_vars(i \in 1..Len(calls) /\ Work(i))

(***************************************************************************)
(* What a call has to give is said by what it was called with alone.             *)
(***************************************************************************)
Want(c) == IF c.kind = "scan" THEN IF c.began = BadVersion THEN Fail ELSE Doc(c.began, c.opt)
           ELSE IF c.fmt = BadFmt THEN Fail ELSE Text(Doc(calls[c.of].began, calls[c.of].opt), c.fmt)
Right == \A i \in 1..Len(calls) : LET c == calls[i] IN
    c.at = "done" => c.res = Want(c) \/ (c.cancelled /\ c.res = Fail)
OptionsKept == \A o \in Options : opts[o] = Value(o)
ResultsStay == [][\A i \in 1..Len(calls) : calls[i].at = "done" => calls'[i] = calls[i]]_vars
AllEnd == <>[](ActiveOnes = {})

EmitHist == (Record /\ ActiveOnes = {} /\ Len(calls) = MaxCalls) => PrintT("HIST " \o ToJson(hist))
=============================================================================
