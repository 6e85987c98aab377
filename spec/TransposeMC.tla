----------------------------- MODULE TransposeMC -----------------------------
(* Histories of calls on enums of nested Options and Results; availability of the methods; items. *)
EXTENDS Transpose, Json, CSV, TLC
CONSTANTS Mode, MaxN, OutFile
VARIABLES ph, n, act, tys, cur, steps, todo, start, it
vars == <<ph, n, act, tys, cur, steps, todo, start, it>>
R1(X) == RandomElement(X)
One == Mode \in {"one", "wide"}    \* every single call (wide: on enums of many alternatives)
Emit(x) == OutFile = "" \/ CSVWrite("%1$s", <<ToJson(x)>>, OutFile)

------------------------------------------------------------------------------
(* every value of a type, with identities that tell where in the type it was *)
RECURSIVE Values(_, _)
Values(t, id) ==
  CASE t.k = "leaf" -> {[k |-> "leaf", p |-> <<[k |-> id, p |-> <<>>]>>]}
    [] t.k = "opt"  -> {[k |-> "none", p |-> <<>>]} \cup {[k |-> "some", p |-> <<v>>] : v \in Values(t.p[1], id * 2)}
    [] t.k = "res"  -> {[k |-> "ok", p |-> <<v>>] : v \in Values(t.p[1], id * 2)} \cup {[k |-> "err", p |-> <<v>>] : v \in Values(t.p[2], id * 2 + 1)}
RECURSIVE AType(_)
AType(d) == IF d = 0 THEN Leaf(R1(0..2))
            ELSE LET c == R1(1..4) IN CASE c = 1 -> Leaf(R1(0..2)) [] c = 2 -> Opt(AType(d - 1)) [] OTHER -> Res(AType(d - 1), AType(d - 1))
\* the types on which the calls ms can be made, if every result goes the way it says
Calls == {"some", "ok", "err", "okc", "errc"}    \* c: the other sides agree, so that transpose_ok or transpose_err exists, too
\* (c, o: types drawn before, one per alternative)
Wrap(ts, c, o) ==
  CASE c = "some" -> [j \in 1..Len(ts) |-> Opt(ts[j])]
    [] c = "ok"   -> [j \in 1..Len(ts) |-> Res(ts[j], o[j])]
    [] c = "err"  -> [j \in 1..Len(ts) |-> Res(o[j], ts[j])]
    [] c = "okc"  -> [j \in 1..Len(ts) |-> Res(ts[j], o[1])]
    [] c = "errc" -> [j \in 1..Len(ts) |-> Res(o[1], ts[j])]
Go(ts, a) ==
  \E v \in (IF One THEN Values(ts[a], a) ELSE {R1(Values(ts[a], a))}) :
    /\ n' = Len(ts) /\ act' = a /\ tys' = ts /\ cur' = v /\ start' = [tys |-> ts, v |-> v]
    /\ steps' = <<>> /\ todo' = (IF One THEN 1 ELSE R1(1..4)) /\ ph' = "call" /\ UNCHANGED it
Ones ==
  /\ One
  /\ \E k \in (IF Mode = "wide" THEN {MaxN} ELSE 1..MaxN) : \E c \in Calls : \E same \in BOOLEAN : \E a \in (IF Mode = "wide" THEN {8, 9, 11, k} ELSE 1..k) :
       Go(Wrap([j \in 1..k |-> Leaf(IF same THEN 0 ELSE j)], c, [j \in 1..k |-> Leaf(IF same THEN 1 ELSE MaxN + j)]), a)
Chains ==
  /\ Mode = "chain"
  /\ \E k \in {R1(1..MaxN)} : \E c1 \in {R1(Calls)} : \E c2 \in {R1(Calls)} : \E c3 \in {R1(Calls)} : \E d \in {R1(1..3)} :
     \E o1 \in {[j \in 1..k |-> AType(1)]} : \E o2 \in {[j \in 1..k |-> AType(1)]} : \E o3 \in {[j \in 1..k |-> AType(1)]} :
     \E t0 \in {[j \in 1..k |-> AType(1)]} :
     \E t1 \in {Wrap(t0, c1, o1)} : \E t2 \in {IF d > 1 THEN Wrap(t1, c2, o2) ELSE t1} : \E t3 \in {IF d > 2 THEN Wrap(t2, c3, o3) ELSE t2} :
       \E a \in {R1(1..k)} : Go(t3, a)
Call ==
  /\ ph = "call" /\ todo > 0
  /\ \E m \in (IF One THEN Methods ELSE {R1({x \in Methods : Available(tys, x)} \cup {"-"})}) :
       IF m = "-" \/ ~Available(tys, m) THEN ph' = "end" /\ UNCHANGED <<tys, cur, steps, todo>>
       ELSE \E r \in {Result(tys, cur, m)} :
              /\ steps' = Append(steps, [m |-> m, w |-> r.w, en |-> r.en, tys |-> r.tys, v |-> r.v])
              /\ tys' = r.tys /\ cur' = (IF r.v = <<>> THEN cur ELSE r.v[1])
              /\ todo' = todo - 1 /\ ph' = (IF r.en /\ todo > 1 THEN "call" ELSE "end")
  /\ UNCHANGED <<n, act, start, it>>

\* availability of every method for enums of simple types
Simple == {Opt(Leaf(0)), Opt(Leaf(1)), Res(Leaf(0), Leaf(1)), Res(Leaf(1), Leaf(0)), Res(Leaf(0), Leaf(0)), Leaf(0)}
Avail ==
  /\ Mode = "avail"
  /\ \E k \in 1..MaxN : \E ts \in [1..k -> Simple] :
       /\ n' = k /\ act' = 1 /\ tys' = ts /\ ph' = "end" /\ UNCHANGED <<cur, steps, todo, start, it>>

\* items
Pars == {[k |-> "type", d |-> FALSE], [k |-> "type", d |-> TRUE], [k |-> "const", d |-> FALSE], [k |-> "life", d |-> FALSE]}
Fields(np) == {[k |-> "conc", i |-> 0], [k |-> "unit", i |-> 0]} \cup {[k |-> x, i |-> j] : x \in {"par", "wrap"}, j \in 1..np}
Items ==
  /\ Mode = "items"
  /\ \E np \in 0..MaxN : \E nv \in 1..MaxN : \E ps \in [1..np -> IF np > 2 THEN {[k |-> "type", d |-> FALSE], [k |-> "life", d |-> FALSE]} ELSE Pars] : \E fs \in [1..nv -> IF np > 2 THEN {f \in Fields(np) : f.k = "par"} ELSE Fields(np)] : \E wh \in {"", "mk"} : \E on \in BOOLEAN :
       /\ Formed(ps, fs) /\ Used(ps, fs)
       /\ ~on => Exactly(ps, fs)
       /\ it' = [ps |-> ps, fs |-> fs, wh |-> wh, on |-> on, ok |-> Exactly(ps, fs)]
       /\ ph' = "end" /\ UNCHANGED <<n, act, tys, cur, steps, todo, start>>

Init == ph = "start" /\ n = 0 /\ act = 0 /\ tys = <<>> /\ cur = [k |-> "none", p |-> <<>>] /\ steps = <<>> /\ todo = 0 /\ start = <<>> /\ it = <<>>
Finish ==
  /\ ph = "end"
  /\ CASE Mode = "items" -> Emit(it)
       [] Mode = "avail" -> Emit([tys |-> tys, ms |-> {m \in Methods : Available(tys, m)}])
       [] OTHER -> IF steps = <<>> THEN TRUE ELSE Emit([n |-> n, act |-> act, start |-> start, steps |-> steps])
  /\ ph' = "done" /\ UNCHANGED <<n, act, tys, cur, steps, todo, start, it>>
Next == (ph = "start" /\ (Ones \/ Chains \/ Avail \/ Items)) \/ Call \/ Finish
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
RECURSIVE Ids(_), Fits(_, _)
Ids(v) == IF v.k = "leaf" THEN {v.p[1].k} ELSE UNION {Ids(v.p[j]) : j \in 1..Len(v.p)}
Fits(v, t) == CASE t.k = "leaf" -> v.k = "leaf" [] t.k = "opt" -> v.k = "none" \/ (v.k = "some" /\ Fits(v.p[1], t.p[1]))
                [] t.k = "res" -> (v.k = "ok" /\ Fits(v.p[1], t.p[1])) \/ (v.k = "err" /\ Fits(v.p[1], t.p[2]))
Mk(v) == ph \in {"call", "end"} /\ Mode \in {"one", "wide", "chain"}
\* nothing is lost or invented on the way, except that a None holds nothing
Preserved == Mk(0) => \A j \in 1..Len(steps) : steps[j].v # <<>> => Ids(steps[j].v[1]) = Ids(start.v)
\* None stays None, Some Some, Ok Ok and Err Err
SameSide == Mk(0) /\ steps # <<>> => steps[1].w = start.v.k
\* what is in the result has the type of that side of the active alternative
WellTyped == Mk(0) => \A j \in 1..Len(steps) : steps[j].v # <<>> => Fits(steps[j].v[1], steps[j].tys[act])
\* there are as many alternatives as before, and both sides of a bare value agree in type
Shape == Mk(0) => \A j \in 1..Len(steps) : (steps[j].v # <<>> => Len(steps[j].tys) = n) /\ (~steps[j].en /\ steps[j].v # <<>> => \A x \in 1..n : steps[j].tys[x] = steps[j].tys[1])
=============================================================================
