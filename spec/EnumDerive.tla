----------------------------- MODULE EnumDerive -----------------------------
(* What #[enum_derive] makes of a list of traits and of an item.

   A catalogue of the supported traits, the machine that resolves a list of trait names, the
   traits, associated types and Unpin-ness of the resulting enum as a function of its fields, and
   which items are accepted at all.  The traits #[auto_enum] infers from types (type_analysis) and
   the transposition of enums of Options and Results are described here, too. *)
EXTENDS Integers, Sequences, FiniteSets

------------------------------------------------------------------------------
(* The catalogue.  n: canonical name; as: the spellings accepted; f: the crate feature it needs;
   w: the worlds in which it exists ("s": the standard library, everywhere); ds: its direct
   prerequisites; pin: its methods take Pin<&mut Self>; asc: number of associated types that
   matter, including those of its prerequisites (1: the first, 2: both); par: it has a parameter;
   std: derived by the compiler, not by this crate. *)
T(n, as, f, w, ds, pin, asc, par) ==
  [n |-> n, as |-> as, f |-> f, w |-> w, ds |-> ds, pin |-> pin, asc |-> asc, par |-> par, std |-> FALSE]
S(n, f, ds)         == T(n, {n}, f, "s", ds, FALSE, 0, FALSE)
Io(n)               == T(n, {n, "io::" \o n}, "std", "s", IF n = "BufRead" THEN {"Read"} ELSE {}, FALSE, 0, FALSE)
Fm(n)               == T("fmt::" \o n, {"fmt::" \o n}, "fmt", "s", {}, FALSE, 0, FALSE)
Dv(n, ds)           == [T(n, {n}, "", "s", ds, FALSE, 0, FALSE) EXCEPT !.std = TRUE]
Asy(c, w, ns) ==
  {T(c \o "::" \o n, {c \o "::" \o n}, c, w, IF n = "AsyncBufRead" THEN {c \o "::AsyncRead"} ELSE {}, TRUE, 0, FALSE) : n \in ns}

RW == {"AsyncRead", "AsyncBufRead", "AsyncWrite", "AsyncSeek"}
Catalogue ==
  {T("AsRef", {"AsRef"}, "convert", "s", {}, FALSE, 0, TRUE), T("AsMut", {"AsMut"}, "convert", "s", {}, FALSE, 0, TRUE),
   T("Debug", {"Debug", "fmt::Debug"}, "", "s", {}, FALSE, 0, FALSE), T("Display", {"Display", "fmt::Display"}, "", "s", {}, FALSE, 0, FALSE),
   S("fmt::Write", "", {}),
   T("Iterator", {"Iterator"}, "", "s", {}, FALSE, 1, FALSE),
   T("DoubleEndedIterator", {"DoubleEndedIterator"}, "", "s", {"Iterator"}, FALSE, 1, FALSE),
   T("ExactSizeIterator", {"ExactSizeIterator"}, "", "s", {"Iterator"}, FALSE, 1, FALSE),
   T("FusedIterator", {"FusedIterator"}, "", "s", {"Iterator"}, FALSE, 1, FALSE),
   T("TrustedLen", {"TrustedLen"}, "trusted_len", "s", {"Iterator"}, FALSE, 1, FALSE),
   T("Extend", {"Extend"}, "", "s", {}, FALSE, 0, TRUE),
   T("Deref", {"Deref"}, "ops", "s", {}, FALSE, 1, FALSE), T("DerefMut", {"DerefMut"}, "ops", "s", {"Deref"}, FALSE, 1, FALSE),
   T("Index", {"Index"}, "ops", "s", {}, FALSE, 1, TRUE), T("IndexMut", {"IndexMut"}, "ops", "s", {"Index"}, FALSE, 1, TRUE),
   T("RangeBounds", {"RangeBounds"}, "ops", "s", {}, FALSE, 0, TRUE),
   T("FnOnce", {"FnOnce"}, "fn_traits", "s", {}, FALSE, 1, TRUE), T("FnMut", {"FnMut"}, "fn_traits", "s", {"FnOnce"}, FALSE, 1, TRUE),
   T("Fn", {"Fn"}, "fn_traits", "s", {"FnMut"}, FALSE, 1, TRUE),
   T("Coroutine", {"Coroutine"}, "coroutine_trait", "s", {}, TRUE, 2, TRUE),
   T("Future", {"Future"}, "", "s", {}, TRUE, 1, FALSE),
   T("Error", {"Error", "error::Error"}, "std", "s", {"Debug", "Display"}, FALSE, 0, FALSE),
   T("futures03::Stream", {"futures03::Stream"}, "futures03", "a", {}, TRUE, 1, FALSE),
   T("futures03::Sink", {"futures03::Sink"}, "futures03", "a", {}, TRUE, 1, TRUE),
   T("futures01::Future", {"futures01::Future"}, "futures01", "b", {}, FALSE, 2, FALSE),
   T("futures01::Stream", {"futures01::Stream"}, "futures01", "b", {}, FALSE, 2, FALSE),
   T("futures01::Sink", {"futures01::Sink"}, "futures01", "b", {}, FALSE, 2, FALSE),
   T("tokio01::AsyncRead", {"tokio01::AsyncRead"}, "tokio01", "b", {"Read"}, FALSE, 0, FALSE),
   T("tokio01::AsyncWrite", {"tokio01::AsyncWrite"}, "tokio01", "b", {"Write"}, FALSE, 0, FALSE),
   T("rayon::ParallelIterator", {"rayon::ParallelIterator"}, "rayon", "a", {}, FALSE, 1, FALSE),
   T("rayon::IndexedParallelIterator", {"rayon::IndexedParallelIterator"}, "rayon", "a", {"rayon::ParallelIterator"}, FALSE, 1, FALSE),
   T("rayon::ParallelExtend", {"rayon::ParallelExtend"}, "rayon", "a", {}, FALSE, 0, TRUE),
   T("serde::Serialize", {"serde::Serialize"}, "serde", "a", {}, FALSE, 0, FALSE),
   T("http_body1::Body", {"http_body1::Body"}, "http_body1", "a", {}, TRUE, 2, FALSE),
   Dv("Clone", {}), Dv("Copy", {"Clone"}), Dv("PartialEq", {}), Dv("Eq", {"PartialEq"}), Dv("PartialOrd", {"PartialEq"}),
   Dv("Ord", {"PartialOrd", "Eq"}), Dv("Hash", {})}
  \cup {Io(n) : n \in {"Read", "BufRead", "Write", "Seek"}}
  \cup {Fm(n) : n \in {"Pointer", "Binary", "Octal", "UpperHex", "LowerHex", "UpperExp", "LowerExp"}}
  \cup Asy("futures03", "a", RW) \cup Asy("tokio1", "a", RW) \cup Asy("tokio03", "c", RW) \cup Asy("tokio02", "d", RW)

Canon == {t.n : t \in Catalogue}
Of == [n \in Canon |-> CHOOSE t \in Catalogue : t.n = n]

\* names no catalogue entry answers to
Unknown == {"io::Iterator", "fmt::Read", "iter::Iterator", "ops::Deref", "future::Future", "std::io::Read", "Stream", "Sink", "AsyncRead",
            "Serialize", "ParallelIterator", "Body", "Binary", "LowerHex", "Pointer", "tokio::AsyncRead", "futures::Stream", "error::Display",
            "Foo", "a::b::Foo", "debug", "Iterators", "convert::AsRef", "rayon::Iterator", "io::Debug"}
Spellings == UNION {t.as : t \in Catalogue} \cup Unknown
CanonOf(s) == IF s \in Unknown THEN "" ELSE (CHOOSE t \in Catalogue : s \in t.as).n

\* the prerequisites of a trait, all the way down
RECURSIVE Up(_)
Up(X) == LET Y == X \cup UNION {Of[n].ds : n \in X} IN IF Y = X THEN X ELSE Up(Y)
Closure(n) == Up({n})

------------------------------------------------------------------------------
(* Lists.  feats is the set of crate features that are on. *)
Supported(s, feats) == s \notin Unknown /\ ~Of[CanonOf(s)].std /\ Of[CanonOf(s)].f \in feats \cup {""}
Meaning(s, feats) == IF s \notin Unknown /\ (Of[CanonOf(s)].std \/ Supported(s, feats)) THEN Closure(CanonOf(s)) ELSE {}

\* one argument after the other; out: the traits implemented so far, each once
Needs(s, feats, out) == {n \in Meaning(s, feats) : \A i \in 1..Len(out) : out[i] # n}
RECURSIVE Linear(_)
Linear(X) ==     \* prerequisites first
  IF X = {} THEN <<>>
  ELSE LET n == CHOOSE x \in X : Closure(x) \cap X = {x} IN <<n>> \o Linear(X \ {n})
PassedOn(s, feats) == ~Supported(s, feats)     \* ... to #[derive]

\* what the list means, whatever its order
ListMeaning(l, feats) == UNION {Meaning(l[i], feats) : i \in 1..Len(l)}
Pinned(X) == \E n \in X : Of[n].pin

------------------------------------------------------------------------------
(* Fields and enums.  A field is [c, k, u, q]: the traits it implements are given by its class c
   (a trait name with its prerequisites only, or everything but a trait, or everything); its
   associated types are those of the kind k = <<first, second>>; u: it is Unpin; q: the parameter
   for which it implements traits with a parameter. *)
Just(n) == [c |-> "just", n |-> n]
But(n)  == [c |-> "but", n |-> n]
Full    == [c |-> "full", n |-> ""]
Pre(n)  == [c |-> "pre", n |-> n]     \* the prerequisites of n only
Fld(c, k, u, q) == [c |-> c, k |-> k, u |-> u, q |-> q]

HasTrait(f, n, q) ==
  /\ \/ f.c.c = "just" /\ n \in Closure(f.c.n)
     \/ f.c.c = "but" /\ f.c.n \notin Closure(n)
     \/ f.c.c = "full"
     \/ f.c.c = "pre" /\ n \in Closure(f.c.n) \ {f.c.n}
  /\ Of[n].par => f.q = q
Assoc(f, n) == SubSeq(f.k, 1, Of[n].asc)

\* the enum of the fields fs implements n (for the parameter q) if it was derived
EnumHas(fs, n, q) == /\ \A i \in 1..Len(fs) : HasTrait(fs[i], n, q)
                     /\ \A i, j \in 1..Len(fs) : Assoc(fs[i], n) = Assoc(fs[j], n)
\* The same holds of fields whose types are parameters, with what is known of them in place of what
\* they are: the enum is known to implement n exactly if its fields are known to, for all types.
EnumUnpin(fs) == \A i \in 1..Len(fs) : fs[i].u
\* what the user may write next to it
MayImplUnpin(X) == ~Pinned(X)
\* traits with methods that consume the enum: no field can be moved out of a type that implements Drop
Moves == {"Iterator", "FnOnce", "rayon::ParallelIterator", "Copy"}
MayImplDrop(X) == ~Pinned(X) /\ X \cap Moves = {}
\* what the compiler derives has bounds on the parameters themselves only
LegalStd(it, X) == (\A n \in X : ~Of[n].std) \/ \A j \in 1..Len(it.vs) : it.vs[j].f.k \in {"par", "conc"}
------------------------------------------------------------------------------
(* Items.  A generic parameter is [k, nm, b, d]: kind ("life", "type", "const"), name, bound, and
   whether it has a default.  A variant is [k, nm, f, d, at]: its kind ("one": one unnamed field),
   name, field, whether it has a discriminant, and whether it carries an attribute.  A field is
   [k, i]: the parameter number i itself ("par"), a probe over it ("wrap"), a probe over it that
   also mentions every lifetime and constant ("all"), or a concrete type ("conc"). *)
Kinds == {"one", "unit", "none", "two", "rec0", "rec1", "rec2"}
GoodVariant(v) == v.k = "one" /\ ~v.d
Accepted(it) == it.kw = "enum" /\ it.vs # <<>> /\ \A i \in 1..Len(it.vs) : GoodVariant(it.vs[i])

\* what Rust itself asks of an enum
UsesParam(it, i) == \E j \in 1..Len(it.vs) : it.vs[j].k \notin {"unit", "none", "rec0"} /\
                      IF it.ps[i].k = "type" THEN it.vs[j].f.k # "conc" /\ it.vs[j].f.i = i ELSE it.vs[j].f.k = "all"
\* ... and of an impl block: the enum has to be nameable next to its own parameters
LegalRust(it) == \A i \in 1..Len(it.ps) : it.ps[i].nm # it.nm /\ (it.ps[i].k = "const" \/ UsesParam(it, i))

\* concrete fields: the bounds #[enum_derive] writes about types without parameters are trivial ones,
\* which Rust rejects or misreads unless the trait has neither parameters nor (in a mixed enum) associated types
ConcreteOK(it, X) ==
  LET con == {j \in 1..Len(it.vs) : it.vs[j].f.k = "conc"}
  IN con = {} \/ \A n \in X : ~Of[n].par /\ (Of[n].asc = 0 \/ con = 1..Len(it.vs))

=============================================================================
