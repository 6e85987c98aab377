---------------------------- MODULE DelegationMC ----------------------------
(* Explores Delegation: every history of bounded length over the traits given, or random longer ones.
   Finished histories are written to OutFile; the harness replays them on the real derives. *)
EXTENDS Delegation, Json, CSV, TLC, Randomization
CONSTANTS Traits,     \* set of traits
          MaxCalls,   \* length of a history
          Mode,       \* "args": every call, in one position; "shapes": every position, some calls; "pairs": pairs of calls; "random"
          OutFile
VARIABLES s, sh, hist, L, q
vars == <<s, sh, hist, L, q>>

\* representative calls of a method: its smallest and largest arguments and replies
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxOf(X) == CHOOSE x \in X : \A y \in X : x >= y
Ends(X) == {MinOf(X), MaxOf(X)}
Some(t) == UNION {LET one == [m |-> k.m, a |-> MaxOf(k.as), r |-> MinOf({MaxOf(k.rs), (MaxOf(k.as) % 10) + k.cap}), x |-> MaxOf(k.xs)]
                      two == [m |-> k.m, a |-> MinOf(k.as), r |-> MinOf(k.rs), x |-> MinOf(k.xs)] IN {one, two} : k \in Methods(t)}
One(t) == {[m |-> k.m, a |-> MaxOf(k.as), r |-> MinOf({MaxOf(k.rs), (MaxOf(k.as) % 10) + k.cap}), x |-> MaxOf(k.xs)] : k \in Methods(t)}
Menu(t) == CASE Mode = "args" -> {c \in Calls(t) : Fits(t, c)}
             [] Mode = "shapes" -> Some(t)
             [] Mode = "pairs" -> One(t)
             [] OTHER -> {c \in Calls(t) : Fits(t, c)}
Positions(t) == CASE Mode = "args" -> {<<"g", 3, 2>>}
                  [] Mode = "pairs" -> {<<"g", 2, 2>>, <<"r", 3, 1>>}
                  [] OTHER -> UNION {{<<x[1], x[2], v>> : v \in Spots(x)} : x \in Shapes(t)}

Init == /\ s = [pc |-> "start"] /\ sh = <<"", 0, 0>> /\ hist = <<>> /\ L = <<>> /\ q = [r |-> 0, n |-> 0]
Choose == /\ s.pc = "start"
          /\ \E t \in IF Mode = "random" THEN RandomSubset(1, Traits) ELSE Traits :
             \E p \in IF Mode = "random" THEN RandomSubset(1, Positions(t)) ELSE Positions(t) :
                s' = Init0(t, p[3]) /\ sh' = p
          /\ UNCHANGED <<hist, L, q>>
Ev(e) == Can(s, e) /\ s' = Do(s, e) /\ L' = Append(L, e)
Place == 8
\* a random history keeps the enum as long as it can
Going(t) == LET stay == {k \in Methods(t) : ~k.own} IN IF stay = {} \/ Len(hist) = MaxCalls - 1 THEN Methods(t) ELSE stay
\* the user calls
Call == /\ s.pc = "idle" /\ Len(hist) < MaxCalls
        /\ \E c \in IF Mode = "random" THEN {RandomElement(LET k == RandomElement(Going(s.t)) IN {c \in Menu(s.t) : c.m = k.m})} ELSE Menu(s.t) :
              /\ Ev(<<"call", c.m, c.a, c.x>>) /\ hist' = Append(hist, <<c.m, c.a, c.r, c.x>>)
              /\ q' = [r |-> c.r, n |-> 0]
        /\ UNCHANGED sh
Enter == /\ s.pc = "called" /\ Cur(s).k = "fwd"
         /\ Ev(<<"enter", s.v, Cur(s).i, ArgOf(s.m, s.a), s.x, IF Cur(s).own /\ Cur(s).m = Cur(s).i THEN -2 ELSE Place>>) /\ UNCHANGED <<sh, hist, q>>
\* methods that take a callback
TakesCb == s.m \in {"partition", "fold", "rfold", "all", "any", "find", "find_map", "position", "rfind", "drive", "drive_unindexed", "with_producer"}
Ask  == /\ s.pc = "inner" /\ TakesCb /\ q.n < q.r /\ Ev(<<"ask", q.n + 1>>) /\ q' = [q EXCEPT !.n = @ + 1] /\ UNCHANGED <<sh, hist>>
Cb   == /\ s.pc = "asked" /\ Ev(<<"cb", s.y>>) /\ UNCHANGED <<sh, hist, q>>
Cbr  == /\ s.pc = "cb" /\ \E z \in 0..1 : Ev(<<"cbr", z>>) /\ UNCHANGED <<sh, hist, q>>
Seen == /\ s.pc = "after" /\ Ev(<<"seen", s.z>>) /\ UNCHANGED <<sh, hist, q>>
Leave == /\ s.pc = "inner" /\ Ev(<<"leave", q.r>>) /\ UNCHANGED <<sh, hist, q>>
\* a provided method: the model lets it enter the held value up to once
Inside == /\ s.pc = "called" /\ Cur(s).k = "def" /\ Ev(<<"enter", s.v, "any", 0, 0, Place>>) /\ UNCHANGED <<sh, hist, q>>
Ret == /\ \/ s.pc = "left" /\ Ev(<<"ret", s.r>>)
          \/ s.pc = "called" /\ Cur(s).k = "self" /\ Ev(<<"ret", 10 + s.v>>)
          \/ s.pc \in {"called", "twin"} /\ Cur(s).k = "def" /\ Ev(<<"ret", 0>>)
       /\ UNCHANGED <<sh, hist, q>>
\* a finished history goes to the harness
Finish == /\ s.pc \in {"idle", "done"} /\ hist # <<>> /\ (s.pc = "done" \/ Len(hist) = MaxCalls)
          /\ OutFile = "" \/ CSVWrite("%1$s", <<ToJson([t |-> s.t, s |-> sh[1], n |-> sh[2], v |-> sh[3], h |-> hist])>>, OutFile)
          /\ s' = [pc |-> "end"] /\ UNCHANGED <<sh, hist, L, q>>
Next == Choose \/ Call \/ Enter \/ Ask \/ Cb \/ Cbr \/ Seen \/ Leave \/ Inside \/ Ret \/ Finish
Spec == Init /\ [][Next]_vars

Live == s.pc \notin {"start", "end"}
InvOnlyActive == Live => OnlyActive(L, s.v)
InvOnceEach == Live => OnceEach(L, s.t)
InvSameArgs == Live => SameArgs(L, s.t)
InvSameResult == Live => SameResult(L, s.t)
InvSameCallbacks == Live => SameCallbacks(L, s.t)
InvPinned == Pinned(L)
InvSource == Live => SourceIsHeld(L, s.t, s.v)
\* the specified implementation is never stuck: a call in progress always has a next step
NeverStuck == Live /\ ~Quiet(s) => ENABLED (Enter \/ Ask \/ Cb \/ Cbr \/ Seen \/ Leave \/ Inside \/ Ret)
=============================================================================
