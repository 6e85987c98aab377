--------------------------- MODULE TypeAnalysisMC ---------------------------
(* Annotations with and without arguments on functions and lets with impl Trait types: collected
   one bound at a time.  Finished cases are written to OutFile and compiled with the real macro. *)
EXTENDS TypeAnalysis, Json, CSV, TLC
CONSTANTS Mode,     \* "one": every name; "two": pairs of names; "rand": random types
          Feats, Miss, OutFile
VARIABLES ph, args, ty, form, exits, todo, got
vars == <<ph, args, ty, form, exits, todo, got>>
R1(X) == RandomElement(X)
Emit(x) == OutFile = "" \/ CSVWrite("%1$s", <<ToJson(x)>>, OutFile)

Impl(b) == [k |-> "impl", b |-> b, c |-> <<>>]
Con(k, c) == [k |-> k, b |-> <<>>, c |-> c]
B(s, m, a) == [s |-> s, m |-> m, a |-> a]
\* names nothing is known about; each of them is a trait of the harness or a longer path to a known one
Foreign == {"Mk", "marks::Mk", "std::fmt::Debug", "core::iter::Iterator", "ops::Deref", "std::io::Read", "convert::AsRef", "iter::Extend", "hash::Hash", "clone::Clone"}
\* what the longer paths really name: the enum has to implement it, or Rust rejects the function
ForeignOf == [s \in Foreign |->
  CASE s = "std::fmt::Debug" -> "Debug" [] s = "core::iter::Iterator" -> "Iterator" [] s = "ops::Deref" -> "Deref" [] s = "std::io::Read" -> "Read"
    [] s = "convert::AsRef" -> "AsRef" [] s = "iter::Extend" -> "Extend" [] s = "hash::Hash" -> "Hash" [] s = "clone::Clone" -> "Clone" [] OTHER -> ""]
Forms == {"fn", "method", "let", "fnw", "letw"}     \* w: the impl Trait types are inside another type
\* traits the associated types of the probes have, and the traits whose associated type may be given
Inner == {"Debug", "fmt::Debug", "Display", "fmt::Display", "Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "fmt::Binary", "fmt::LowerHex", "Mk", "std::fmt::Debug", "clone::Clone"}
Given == {"Iterator", "Future", "Deref"}
Dress == {"", "", "paren", "hr"}

\* the prerequisites #[enum_derive] is known not to add are always written out
RECURSIVE Spell(_)
Spell(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<CHOOSE s \in Of[x].as : TRUE>> \o Spell(X \ {x})
Lacks(q) ==
  LET named == {CanonOf(q[k]) : k \in {j \in 1..Len(q) : q[j] \in Spellings}} \ {""}
  IN UNION {Closure(n) \ {n} : n \in named \cap Miss} \ named
\* a complete top-level impl type over the names q (q[j] may carry an inner type)
Bounds(q) == q \o [j \in 1..Cardinality(Lacks([k \in 1..Len(q) |-> q[k].s])) |-> B(Spell(Lacks([k \in 1..Len(q) |-> q[k].s]))[j], "", <<>>)]

Wrapped(t) == IF form' \in {"fnw", "letw"} THEN R1({Con("opt", <<t>>), Con("tup", <<t, Con("con", <<>>)>>), Con("tup", <<Con("con", <<>>), t>>), Con("arr", <<t>>), Con("box", <<Con("opt", <<t>>)>>), Con("ref", <<t>>), Con("res", <<t, Con("con", <<>>)>>), Con("res", <<Con("con", <<>>), t>>)}) ELSE t

Ones ==
  /\ Mode = "one"
  /\ \E s \in TaNames \cup Foreign : \E f \in {"fn", "let", "method"} : \E a \in {<<>>, <<"Debug">>} \cup {<<x>> : x \in {y \in TaNames : s \in TaNames /\ CanonOf(y) = CanonOf(s)}} : \E n \in {1, 2} :
        /\ form' = f /\ exits' = n
        /\ (n = 1) => Len(a) = 0 \/ a = <<"Debug">>
        /\ (f = "let") => s \in TaNames     \* an `impl Trait` that is not recognised stays, and is an error of Rust there
        /\ ty' = Impl(Bounds(<<B(s, "", <<>>)>>))
        /\ args' = a
Twos ==
  /\ Mode = "two"
  /\ \E s \in TaNames : \E x \in {y \in TaNames : y = s \/ Closure(CanonOf(y)) \cap Closure(CanonOf(s)) # {}} \cup {"Mk"} : \E f \in {"fn", "let", "fnw"} :
        /\ form' = f /\ exits' = 2
        /\ ty' = (IF f = "fnw" THEN Con("tup", <<Impl(Bounds(<<B(s, "", <<>>)>>)), Impl(<<B(x, "", <<>>)>>)>>) ELSE Impl(Bounds(<<B(s, "", <<>>), B(x, "", <<>>)>>)))
        /\ args' = <<>>
RandBounds(names, n) == [j \in 1..n |-> LET s == R1(names) IN
   B(s, R1(Dress), IF s \in Given /\ R1({0, 1}) = 1 THEN <<R1({Impl([k \in 1..R1(1..2) |-> B(R1(Inner), "", <<>>)]), Con("con", <<>>)})>> ELSE <<>>)]
Extras == {<<>>, <<>>, <<B("'", "", <<>>)>>, <<B("?", "", <<>>)>>}
Rands ==
  /\ Mode = "rand"
  /\ \E f \in {R1(Forms)} : \E n \in {R1(1..4)} : \E q \in {RandBounds(IF R1(1..3) = 1 THEN {"Iterator", "Future", "Deref", "Debug", "Mk"} ELSE TaNames \cup {"Mk", "std::fmt::Debug", "clone::Clone"}, n)} :
     \E a \in {R1({<<>>, <<>>, <<"Debug">>, <<R1(TaNames)>>, <<R1(TaNames), "fmt::Debug">>, <<"futures03::Stream">>})} :
     \E t \in {Impl(Bounds(q) \o R1(Extras))} :
        /\ form' = f /\ exits' = 2
        /\ ty' = Wrapped(t)
        /\ (f \in {"let", "letw"}) => Recognised(t)
        /\ a # <<"fmt::Debug", "fmt::Debug">>
        /\ args' = a
Init == ph = "start" /\ args = <<>> /\ ty = Con("con", <<>>) /\ form = "" /\ exits = 0 /\ todo = <<>> /\ got = <<>>
Choose == ph = "start" /\ (Ones \/ Twos \/ Rands) /\ todo' = Post(ty') /\ ph' = "visit" /\ UNCHANGED got
Visit == /\ ph = "visit" /\ todo # <<>>
         /\ got' = Take(args, got, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<ph, args, ty, form, exits>>
List == args \o got
\* lists with a trait whose prerequisites are known to be missing are left out (C14)
Fine == Lacks(List) = {}
RECURSIVE Outer(_)
Outer(t) == IF t.k = "impl" THEN {t.b[j].s : j \in 1..Len(t.b)} ELSE UNION {Outer(t.c[j]) : j \in 1..Len(t.c)}
Unmet == form \notin {"let", "letw"} /\ ~NoOp(args, got, form \in {"fn", "method"}, exits)
         /\ \E s \in Outer(ty) \cap Foreign : ForeignOf[s] # "" /\ ForeignOf[s] \notin ListMeaning(List, Feats)
Finish ==
  /\ ph = "visit" /\ todo = <<>>
  /\ Fine => Emit([args |-> args, ty |-> ty, form |-> form, ex |-> exits, list |-> List, noop |-> NoOp(args, got, form \in {"fn", "method"}, exits),
                   err |-> exits < 2 /\ ~NoOp(args, got, form \in {"fn", "method"}, exits), unmet |-> Unmet,
                   means |-> ListMeaning(List, Feats)])
  /\ ph' = "done" /\ UNCHANGED <<args, ty, form, exits, todo, got>>
Next == Choose \/ Visit \/ Finish
Spec == Init /\ [][Next]_vars

Range(q) == {q[j] : j \in 1..Len(q)}
TakenOnce == \A i, j \in 1..Len(got) : i # j => got[i] # got[j]
NotRepeated == Range(got) \cap Range(args) = {}
\* in the end every recognised name is there, and nothing else
ExactlyNamed == ph = "done" => Range(got) \cup (Range(args) \cap Range(Post(ty))) = Range(Post(ty)) \cap TaNames
\* the place of a name in the type does not matter
MeaningOfNames == ph = "done" => ListMeaning(List, Feats) = ListMeaning(args, Feats) \cup UNION {Meaning(s, Feats) : s \in Range(Post(ty)) \cap TaNames}
=============================================================================
