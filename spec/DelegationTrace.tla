--------------------------- MODULE DelegationTrace --------------------------
(* Every trace recorded from the real derives has to be a behaviour of Delegation.
   One initial state per trace; a trace that takes a step the specification does not allow, or stops
   early, is written to OutFile with the position of the offending event. *)
EXTENDS Delegation, Json, CSV, TLC
CONSTANTS InFile, OutFile
VARIABLES i, l, s, c, ok
vars == <<i, l, s, c, ok>>
Traces == ndJsonDeserialize(InFile)
T == Traces[i]
Init == /\ i \in 1..Len(Traces) /\ l = 1 /\ s = Init0(Traces[i].t, Traces[i].v) /\ c = 0 /\ ok = "run"
\* the user calls what the history says
Planned(e) == e[1] = "call" => /\ c < Len(T.h) /\ T.h[c + 1][1] = e[2] /\ T.h[c + 1][2] = e[3] /\ T.h[c + 1][4] = e[4]
\* inside a provided method, and for its result, the twin says what happens
TwinOk(e) == (s.pc \in {"called", "twin"} /\ Cur(s).k = "def") => l <= Len(T.tw) /\ SameEvent(e, T.tw[l])
\* the properties, on the log so far
Holds(L) == OnlyActive(L, T.v) /\ OnceEach(L, T.t) /\ SameArgs(L, T.t) /\ SameResult(L, T.t) /\ SameCallbacks(L, T.t) /\ SourceIsHeld(L, T.t, T.v)
Reject(why) == CSVWrite("%1$s", <<ToJson([i |-> i, l |-> l, why |-> why])>>, OutFile)
Step == /\ ok = "run" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l] IN
           IF Can(s, e) /\ Planned(e) /\ TwinOk(e)
           THEN s' = Do(s, e) /\ l' = l + 1 /\ c' = (IF e[1] = "call" THEN c + 1 ELSE c) /\ UNCHANGED <<i, ok>>
           ELSE Reject("step") /\ ok' = "bad" /\ UNCHANGED <<i, l, s, c>>
End == /\ ok = "run" /\ l > Len(T.ev)
       /\ IF ~Quiet(s) \/ (s.pc = "idle" /\ c < Len(T.h)) THEN Reject("stops") /\ ok' = "bad"
          ELSE IF s.pc = "done" /\ Cur(s).k = "def" /\ Len(T.tw) # Len(T.ev) THEN Reject("twin") /\ ok' = "bad"
          ELSE IF ~Holds(T.ev) THEN Reject("property") /\ ok' = "bad"
          ELSE ok' = "good"
       /\ UNCHANGED <<i, l, s, c>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
