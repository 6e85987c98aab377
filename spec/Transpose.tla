------------------------------ MODULE Transpose ------------------------------
(* The methods #[enum_derive(Transpose)] gives to enums of Options and Results.

   A type is [k, p]: "leaf" with a number as p, "opt" over <<T>>, or "res" over <<T, E>>.  A value is
   [k, p]: "leaf" with an identity, "none" over <<>>, or "some", "ok", "err" over <<v>>.  An enum is the
   sequence of the types of its alternatives; its value is the active alternative and what it holds. *)
EXTENDS Integers, Sequences, FiniteSets

Leaf(n)   == [k |-> "leaf", p |-> <<[k |-> n, p |-> <<>>]>>]
Opt(t)    == [k |-> "opt", p |-> <<t>>]
Res(t, e) == [k |-> "res", p |-> <<t, e>>]

Methods == {"transpose", "transpose_ok", "transpose_err"}
All(tys, k) == \A j \in 1..Len(tys) : tys[j].k = k
Agree(tys, s) == \A j \in 1..Len(tys) : tys[j].p[s] = tys[1].p[s]
\* whether a method exists, which depends on the types only
Available(tys, m) ==
  CASE m = "transpose"     -> All(tys, "opt") \/ All(tys, "res")
    [] m = "transpose_ok"  -> All(tys, "res") /\ Agree(tys, 2)
    [] m = "transpose_err" -> All(tys, "res") /\ Agree(tys, 1)

Side(tys, s) == [j \in 1..Len(tys) |-> tys[j].p[s]]
(* The result: [w, en, tys, v]: wrapped in w ("none", "some", "ok", "err"); en: it is an enum again, with
   the same active alternative and the types tys; otherwise (transpose_ok of an Err, transpose_err of
   an Ok) it is the bare value that was held. *)
Result(tys, v, m) ==
  CASE v.k = "none" -> [w |-> "none", en |-> FALSE, tys |-> <<>>, v |-> <<>>]
    [] v.k = "some" -> [w |-> "some", en |-> TRUE, tys |-> Side(tys, 1), v |-> v.p]
    [] v.k = "ok"   -> [w |-> "ok", en |-> m # "transpose_err", tys |-> Side(tys, 1), v |-> v.p]
    [] v.k = "err"  -> [w |-> "err", en |-> m # "transpose_ok", tys |-> Side(tys, 2), v |-> v.p]

(* Items: parameters [k, d] ("type", "const", "life"; d: with a default) and fields [k, i]: the parameter
   i itself ("par"), something made of it ("wrap"), a concrete type ("conc"), or no field ("unit"). *)
Exactly(ps, fs) == /\ fs # <<>> /\ Len(ps) = Len(fs)
                   /\ \A j \in 1..Len(ps) : ps[j].k = "type" /\ fs[j] = [k |-> "par", i |-> j]
\* what Rust itself asks of the enum
Used(ps, fs) == \A j \in 1..Len(ps) : ps[j].k = "const" \/ \E x \in 1..Len(fs) : fs[x].i = j /\ fs[x].k \in {"par", "wrap"}
Formed(ps, fs) == /\ fs # <<>>
                  /\ \A x \in 1..Len(fs) : fs[x].k = "par" => ps[fs[x].i].k = "type"
                  /\ \A x \in 1..Len(fs) : fs[x].k = "wrap" => ps[fs[x].i].k # "const"
                  /\ \A i, j \in 1..Len(ps) : i < j => ~(ps[i].k # "life" /\ ps[j].k = "life") /\ ~(ps[i].d /\ ~ps[j].d)
                  /\ \A i \in 1..Len(ps) : ps[i].d => ps[i].k = "type"
=============================================================================
