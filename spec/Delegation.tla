----------------------------- MODULE Delegation -----------------------------
(* The implementations #[enum_derive] writes, as a transition system.

   An enum of n alternatives holds one value, in alternative v.  A user calls methods of a derived
   trait on it; the value held is an environment that replies as it likes and may call the user's
   callbacks while it is inside a method.  Every observable step is an event:

     <<"call", m, a, x>>            the user calls method m with argument a and task context x
     <<"enter", w, m, a, x, off>>   the value in alternative w is entered: method, argument, context,
                                    and the place of that value inside the enum (-2: by value)
     <<"ask", y>>  <<"seen", z>>    the held value calls a callback with y, and gets z back
     <<"cb", y>>   <<"cbr", z>>     the user's callback runs with y and answers z
     <<"leave", r>>                 the held value returns r
     <<"ret", r>>                   the user gets r

   Step(s, e) is the transition relation; it is used twice: DelegationMC explores it (to check the
   invariants and to generate histories for the implementation), and DelegationTrace checks every
   trace recorded from the implementation against it.

   A method is of one of three kinds:
     fwd   the trait's implementation has to hand the call to the same method of the held value
     def   the trait's provided method, built on the forwarded ones: it has to do to the held value
           exactly what the same method does to a bare value (the twin), event by event
     self  answered by the enum itself, without entering the held value (Error::source)            *)
EXTENDS Integers, Sequences, FiniteSets

------------------------------------------------------------------------------
(* The traits and their methods. *)

R3   == 0..3
None == {0}
Ctx  == 1..3
\* m: method; i: the method of the held value it has to reach; k: kind; own: consumes the enum;
\* as, rs, xs: arguments, replies, contexts; cap: the reply may be at most a % 10 + cap
Me(m, i, k, own, as, rs, xs, cap) == [m |-> m, i |-> i, k |-> k, own |-> own, as |-> as, rs |-> rs, xs |-> xs, cap |-> cap]
F(m, as, rs)    == Me(m, m, "fwd", FALSE, as, rs, None, 99)
O(m, as, rs)    == Me(m, m, "fwd", TRUE, as, rs, None, 99)
As(m, i, as, rs) == Me(m, i, "fwd", FALSE, as, rs, None, 99)    \* spelled m, reaches i
AsO(m, i, as, rs) == Me(m, i, "fwd", TRUE, as, rs, None, 99)
C(m, as, rs, cap) == Me(m, m, "fwd", FALSE, as, rs, None, cap)
P(m, as, rs)    == Me(m, m, "fwd", FALSE, as, rs, Ctx, 99)
PC(m, as, rs, cap) == Me(m, m, "fwd", FALSE, as, rs, Ctx, cap)
D(m, as, rs)    == Me(m, m, "def", TRUE, as, rs, None, 99)
DP(m, as, rs)   == Me(m, m, "def", TRUE, as, rs, Ctx, 99)
Own(m)          == Me(m, m, "self", FALSE, None, None, None, 99)

Bits == {0, 2, 4, 6, 8, 14}    \* the user's predicate, as the set of values it holds of
Ds(ms, as, rs) == {D(m, as, rs) : m \in ms}

Next3 == {F("next", None, R3), F("size_hint", None, R3)}
IterM ==
    Next3 \cup {O("count", None, R3), O("last", None, R3), F("nth", 0..3, R3), O("collect", None, R3),
      O("partition", Bits, R3), O("fold", None, R3), F("all", Bits, R3), F("any", Bits, R3), F("find", Bits, R3),
      F("find_map", Bits, R3), F("position", Bits, R3)}
    \cup Ds({"sum", "product", "max", "min_by", "for_each", "map", "filter", "enumerate", "chain", "zip", "flat_map", "fuse", "peekable",
             "try_fold", "try_for_each", "reduce", "eq", "cmp", "unzip", "is_sorted"}, None, 0..4)
    \cup Ds({"skip", "take", "step_by", "take_while", "skip_while", "map_while", "scan", "by_ref"}, 0..2, 0..4)
FmtM(m) == {F(m, 0..3, 0..2), D("fail", None, 0..2), D("to_string", None, 1..2)}
ReadM == {C("read", 0..5, 0..5, 1), C("read_vectored", {12, 13, 22, 24}, 0..5, 1), F("read_to_end", 0..2, 0..4), F("read_to_string", 0..2, 0..4),
          C("read_exact", 0..5, 0..5, 1)} \cup Ds({"by_ref", "take", "bytes", "chain", "bufreader"}, None, 0..5)
BufReadM == {F("fill_buf", None, 0..5), F("consume", 0..4, None), F("read_until", {0, 1, 20, 22}, 0..4), F("read_line", 0..2, 0..4), C("read", 0..5, 0..5, 1)}
            \cup Ds({"lines", "split"}, None, 0..4) \cup Ds({"take_fill"}, None, 0..5)
WriteM == {F("write", 0..4, 0..4), F("write_vectored", {11, 13, 20, 22}, 0..4), F("flush", None, 0..1), F("write_all", 0..4, 0..1), F("iowrite_fmt", 0..4, 0..1)}
          \cup Ds({"by_ref", "by_ref_fmt"}, 0..3, 0..4)
SeekM == {F("seek", 0..2, 0..4)} \cup Ds({"rewind", "stream_position", "seek_relative"}, None, 0..3)
ErrorM == {Own("error_source"), Own("error_dyn"), As("error_behind", "source", None, 0..5), As("error_chain", "source", None, 0..5), F("description", None, 0..5),
           As("error_display", "fmt_display", {1}, 0..2), As("error_debug", "fmt_debug", {2}, 0..2)}
\* asynchronous IO: replies 0 pending, 1 error, k ready
ARead  == {PC("poll_read", 0..5, 0..6, 2)}
AReadV == {PC("poll_read_vectored", {12, 13, 22, 24}, 0..6, 2)}
ABuf   == {P("poll_fill_buf", None, 0..6), F("consume", 0..4, None)}
AWrite == {P("poll_write", 0..4, 0..5), P("poll_flush", None, 0..2)}
AWriteV == {P("poll_write_vectored", {11, 13, 20, 22}, 0..5)}
Prep   == {F("prepare_uninitialized_buffer", 0..3, 0..1)}
StartSeek == {F("start_seek", 0..2, 0..1), P("poll_complete", None, 0..4)}

Methods(t) ==
  CASE t = "Iterator" -> IterM
    [] t = "DoubleEndedIterator" -> {F("next_back", None, R3), F("nth_back", 0..3, R3), O("rfold", None, R3), F("rfind", Bits, R3), F("next", None, R3)}
         \cup Ds({"rev", "rev_fold", "map_back", "chain_back", "try_rfold"}, None, 0..4) \cup Ds({"rev_find", "rev_nth"}, 0..2, 0..4)
    [] t = "ExactSizeIterator" -> {F("len", None, R3)} \cup Next3 \cup Ds({"enumerate_len", "rev_len"}, None, 0..4) \cup Ds({"rposition"}, 0..2, 0..4)
    [] t = "FusedIterator" -> {F("next", None, R3)} \cup Ds({"fuse_next", "fuse_all"}, None, 0..4)
    [] t = "TrustedLen" -> Next3
    [] t = "Extend" -> {F("extend", 0..3, None)} \cup Ds({"extend_opt"}, 0..1, None)
    [] t = "Debug" -> FmtM("fmt_debug")
    [] t = "Display" -> FmtM("fmt_display")
    [] t = "Binary" -> FmtM("fmt_binary")
    [] t = "LowerExp" -> FmtM("fmt_lower_exp")
    [] t = "LowerHex" -> FmtM("fmt_lower_hex")
    [] t = "Octal" -> FmtM("fmt_octal")
    [] t = "UpperExp" -> FmtM("fmt_upper_exp")
    [] t = "UpperHex" -> FmtM("fmt_upper_hex")
    [] t = "Pointer" -> {F("fmt_pointer", 0..3, 0..2)}
    [] t = "fmt::Write" -> {F("write_str", 0..3, 0..1), F("write_char", 0..3, 0..1), F("write_fmt", 0..3, 0..1)} \cup Ds({"by_ref"}, 0..3, 0..1)
    [] t = "Deref" -> {F("deref", None, 0..5)}
    [] t = "DerefMut" -> {F("deref", None, 0..5), F("deref_mut", None, 0..5)}
    [] t = "Index" -> {F("index", 0..3, 0..5)}
    [] t = "IndexMut" -> {F("index", 0..3, 0..5), F("index_mut", 0..3, 0..5)}
    [] t = "RangeBounds" -> {F("start_bound", None, 0..5), F("end_bound", None, 0..5)} \cup Ds({"contains"}, 0..4, 0..4)
    [] t = "AsRef" -> {F("as_ref", None, 0..5)} \cup Ds({"ref_as_ref"}, None, 0..5)
    [] t = "AsMut" -> {F("as_mut", None, 0..5)}
    [] t = "FnOnce" -> {O("call_once", 0..3, R3), D("pass", 0..3, R3)}
    [] t = "FnMut" -> {F("call_mut", 0..3, R3), O("call_once", 0..3, R3), D("pass", 0..3, R3)}
    [] t = "Fn" -> {F("call", 0..3, R3), F("call_mut", 0..3, R3), O("call_once", 0..3, R3), D("pass", 0..3, R3)}
    [] t \in {"Read", "io::Read"} -> ReadM
    [] t \in {"BufRead", "io::BufRead"} -> BufReadM
    [] t \in {"Write", "io::Write"} -> WriteM
    [] t \in {"Seek", "io::Seek"} -> SeekM
    [] t \in {"Error", "error::Error", "Error+"} -> ErrorM
    [] t = "Future" -> {P("poll", None, 0..5), As("poll_ref", "poll", None, 0..3), As("poll_await", "poll", None, 0..3)}
    [] t = "Coroutine" -> {F("resume", 0..3, 0..5)}
    [] t = "futures03::Stream" -> {P("poll_next", None, 0..4), F("size_hint", None, 0..4), DP("next_map", None, 0..4)}
    [] t = "futures03::Sink" -> {P("poll_ready", None, 0..2), P("poll_flush", None, 0..2), P("poll_close", None, 0..2), F("start_send", 0..3, 0..2)}
    [] t = "futures03::AsyncRead" -> ARead \cup AReadV
    [] t = "futures03::AsyncBufRead" -> ABuf \cup ARead
    [] t = "futures03::AsyncWrite" -> AWrite \cup AWriteV \cup {P("poll_close", None, 0..2)}
    [] t = "futures03::AsyncSeek" -> {P("poll_seek", 0..2, 0..5)}
    [] t \in {"tokio1::AsyncRead", "tokio03::AsyncRead"} -> ARead
    [] t \in {"tokio1::AsyncBufRead", "tokio03::AsyncBufRead", "tokio02::AsyncBufRead"} -> ABuf
    [] t = "tokio1::AsyncWrite" -> AWrite \cup AWriteV \cup {F("is_write_vectored", None, 0..1), P("poll_shutdown", None, 0..2)}
    [] t = "tokio03::AsyncWrite" -> AWrite \cup {P("poll_shutdown", None, 0..2), DP("write_vectored_def", {11, 13, 20, 22}, 0..5)}
    [] t \in {"tokio1::AsyncSeek", "tokio03::AsyncSeek"} -> StartSeek
    [] t = "tokio02::AsyncRead" -> ARead \cup Prep
    [] t = "tokio02::AsyncWrite" -> AWrite \cup {P("poll_shutdown", None, 0..2)}
    [] t = "tokio02::AsyncSeek" -> {P("start_seek", 0..2, 0..2), P("poll_complete", None, 0..4)}
    [] t = "http_body1::Body" -> {P("poll_frame", None, 0..6), F("is_end_stream", None, 0..1), F("size_hint", None, 0..4)}
    [] t = "futures01::Future" -> {F("poll", None, 0..5), As("poll_ref", "poll", None, 0..3), D("map", None, 0..5)}
    [] t = "futures01::Stream" -> {F("poll", None, 0..5), D("map", None, 0..5)}
    [] t = "futures01::Sink" -> {F("start_send", 0..3, 0..2), F("poll_complete", None, 0..2), F("close", None, 0..2), D("send", 0..3, 0..2)}
    [] t = "tokio01::AsyncRead" -> Prep \cup {C("poll_read", 0..5, 0..6, 2), C("read", 0..5, 0..5, 1)}
    [] t = "tokio01::AsyncWrite" -> {F("poll_write", 0..4, 0..5), F("poll_flush", None, 0..2), F("shutdown", None, 0..2), F("write", 0..4, 0..4), F("flush", None, 0..1)}
    [] t = "rayon::ParallelIterator" -> {O("drive_unindexed", None, 0..4), F("opt_len", None, 0..4)} \cup Ds({"for_each", "sum", "map_count", "collect"}, None, 0..4)
    [] t = "rayon::IndexedParallelIterator" -> {O("drive", None, 0..4), F("len", None, 0..4), O("with_producer", None, 0..4), F("opt_len", None, 0..4),
         O("drive_unindexed", None, 0..4), D("enumerate", None, 0..4), AsO("rev", "len", None, 0..4)}
    [] t = "rayon::ParallelExtend" -> {F("par_extend", 0..3, 0..1)}
    [] t = "serde::Serialize" -> {F("serialize", 0..1, 0..5), As("serialize_ref", "serialize", 0..1, 0..5)}

\* Traits with parameters of their own cannot be derived on concrete fields, and traits with
\* associated types not on a mixture of generic and concrete fields.
Param == {"Extend", "Index", "IndexMut", "RangeBounds", "AsRef", "AsMut", "FnOnce", "FnMut", "Fn", "Coroutine", "futures03::Sink",
          "rayon::IndexedParallelIterator", "rayon::ParallelExtend"}
Assoc == {"Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen", "Deref", "DerefMut", "Future",
          "futures03::Stream", "http_body1::Body", "futures01::Future", "futures01::Stream", "futures01::Sink", "rayon::ParallelIterator"}
\* shape of the enum: g generic fields, r one generic parameter repeated, w many alternatives of two
\* generic parameters, c concrete fields, m mixed
Shapes(t) == {<<"g", n>> : n \in 1..4} \cup {<<"r", 3>>, <<"w", 17>>} \cup (IF t \in Param THEN {} ELSE {<<"c", 2>>}) \cup (IF t \in Param \cup Assoc THEN {} ELSE {<<"m", 3>>})

\* the alternatives of a shape a value is placed in (of the wide one: some around each power and ten)
Spots(x) == IF x[1] = "w" THEN {9, 11, 17} ELSE 1..x[2]

Meth(t, m) == CHOOSE q \in Methods(t) : q.m = m
Calls(t) == UNION {{[m |-> q.m, a |-> a, r |-> r, x |-> x] : a \in q.as, r \in q.rs, x \in q.xs} : q \in Methods(t)}
\* a reply has to fit the buffer that was passed
Fits(t, c) == c.r <= (c.a % 10) + Meth(t, c.m).cap

------------------------------------------------------------------------------
(* The transition system.  State of one enum:
     t, v      the derived trait, the alternative that holds the value
     pc        idle, called, inner, cb, after (the callback answered), left, done
     m, a, x   the call being made;  y, z  the callback being made;  r  the reply
     off       where the held value was seen (-9: not yet)                                     *)
Init0(t, v) == [t |-> t, v |-> v, pc |-> "idle", m |-> "", a |-> 0, x |-> 0, y |-> 0, z |-> 0, r |-> 0, off |-> -9]
Cur(s) == Meth(s.t, s.m)
\* the argument the held value gets: a predicate is opaque, its answers are the callback's
Predicate == {"partition", "all", "any", "find", "find_map", "position", "rfind"}
ArgOf(m, a) == IF m \in Predicate THEN 0 ELSE a

CanCall(s, e) == s.pc = "idle" /\ e[1] = "call" /\ \E q \in Methods(s.t) : q.m = e[2]
DoCall(s, e)  == [s EXCEPT !.pc = "called", !.m = e[2], !.a = e[3], !.x = e[4]]

\* fwd: the call reaches the active alternative, in place, with the same argument and context
CanEnter(s, e) == s.pc = "called" /\ e[1] = "enter" /\ Cur(s).k = "fwd" /\ e[2] = s.v /\ e[3] = Cur(s).i /\ e[4] = ArgOf(s.m, s.a) /\ e[5] = s.x
                  /\ IF Cur(s).own THEN Cur(s).m = Cur(s).i => e[6] = -2 ELSE e[6] >= 0 /\ (s.off = -9 \/ e[6] = s.off)
DoEnter(s, e)  == [s EXCEPT !.pc = "inner", !.off = IF Cur(s).own THEN @ ELSE e[6]]
CanAsk(s, e)   == s.pc = "inner" /\ e[1] = "ask" /\ Cur(s).k = "fwd"
DoAsk(s, e)    == [s EXCEPT !.pc = "asked", !.y = e[2]]
CanCb(s, e)    == s.pc = "asked" /\ e[1] = "cb" /\ e[2] = s.y
DoCb(s, e)     == [s EXCEPT !.pc = "cb"]
CanCbr(s, e)   == s.pc = "cb" /\ e[1] = "cbr"
DoCbr(s, e)    == [s EXCEPT !.pc = "after", !.z = e[2]]
CanSeen(s, e)  == s.pc = "after" /\ e[1] = "seen" /\ e[2] = s.z
DoSeen(s, e)   == [s EXCEPT !.pc = "inner"]
CanLeave(s, e) == s.pc = "inner" /\ e[1] = "leave" /\ Cur(s).k = "fwd"
DoLeave(s, e)  == [s EXCEPT !.pc = "left", !.r = e[2]]
CanRet(s, e)   == /\ e[1] = "ret"
                  /\ \/ s.pc = "left" /\ e[2] = s.r
                     \/ s.pc = "called" /\ Cur(s).k = "self" /\ e[2] = 10 + s.v
                     \/ s.pc \in {"called", "twin"} /\ Cur(s).k = "def"
DoRet(s, e)    == [s EXCEPT !.pc = IF Cur(s).own THEN "done" ELSE "idle"]
\* def: anything may happen inside, on the active alternative (the twin says what exactly)
CanDef(s, e)   == s.pc \in {"called", "twin"} /\ Cur(s).k = "def" /\ e[1] \in {"enter", "ask", "cb", "cbr", "seen", "leave"}
                  /\ (e[1] = "enter" => e[2] = s.v)
DoDef(s, e)    == [s EXCEPT !.pc = "twin"]

Can(s, e) == CanCall(s, e) \/ CanEnter(s, e) \/ CanAsk(s, e) \/ CanCb(s, e) \/ CanCbr(s, e) \/ CanSeen(s, e) \/ CanLeave(s, e) \/ CanRet(s, e) \/ CanDef(s, e)
Do(s, e) ==
    IF CanCall(s, e) THEN DoCall(s, e) ELSE IF CanRet(s, e) THEN DoRet(s, e) ELSE IF CanDef(s, e) THEN DoDef(s, e)
    ELSE IF CanEnter(s, e) THEN DoEnter(s, e) ELSE IF CanAsk(s, e) THEN DoAsk(s, e) ELSE IF CanCb(s, e) THEN DoCb(s, e)
    ELSE IF CanCbr(s, e) THEN DoCbr(s, e) ELSE IF CanSeen(s, e) THEN DoSeen(s, e) ELSE DoLeave(s, e)
Quiet(s) == s.pc \in {"idle", "done"}

\* the same event on the twin, wherever its value lies
SameEvent(e, f) == e[1] = f[1] /\ Len(e) = Len(f) /\ \A i \in 2..(IF e[1] = "enter" THEN 5 ELSE Len(e)) : e[i] = f[i]

------------------------------------------------------------------------------
(* What a user relies on, over the log of one history (a sequence of events). *)
Idx(L, tag) == {i \in DOMAIN L : L[i][1] = tag}
\* no alternative but the active one is ever touched
OnlyActive(L, v) == \A i \in Idx(L, "enter") : L[i][2] = v
\* the events of the call made at position i
Last(L, i) == LET later == {j \in Idx(L, "call") : j > i} IN IF later = {} THEN Len(L) ELSE (CHOOSE j \in later : \A k \in later : j <= k) - 1
In(L, i, tag) == {j \in Idx(L, tag) : i < j /\ j <= Last(L, i)}
\* a finished forwarded call entered the held value exactly once, with the same method, argument and context
OnceEach(L, t) == \A i \in Idx(L, "call") : (Meth(t, L[i][2]).k = "fwd" /\ In(L, i, "ret") # {}) => Cardinality(In(L, i, "enter")) = 1
SameArgs(L, t) == \A i \in Idx(L, "call") : Meth(t, L[i][2]).k = "fwd" =>
                     \A j \in In(L, i, "enter") : L[j][3] = Meth(t, L[i][2]).i /\ L[j][4] = ArgOf(L[i][2], L[i][3]) /\ L[j][5] = L[i][4]
\* and gave the user exactly what the held value returned
SameResult(L, t) == \A i \in Idx(L, "call") : Meth(t, L[i][2]).k = "fwd" =>
                     \A j \in In(L, i, "ret") : \E k \in In(L, i, "leave") : L[k][2] = L[j][2]
\* callbacks reach the user and answers reach the held value, unchanged and in order
SameCallbacks(L, t) == \A i \in Idx(L, "call") : Meth(t, L[i][2]).k = "fwd" =>
                     \A j \in In(L, i, "seen") : L[j - 3][1] = "ask" /\ L[j - 2] = <<"cb", L[j - 3][2]>> /\ L[j - 1] = <<"cbr", L[j][2]>>
\* the held value never moves
Pinned(L) == \A i, j \in Idx(L, "enter") : (L[i][6] >= 0 /\ L[j][6] >= 0) => L[i][6] = L[j][6]
\* Error::source is the held error itself
SourceIsHeld(L, t, v) == \A i \in Idx(L, "call") : Meth(t, L[i][2]).k = "self" => In(L, i, "enter") = {} /\ \A j \in In(L, i, "ret") : L[j][2] = 10 + v
=============================================================================
