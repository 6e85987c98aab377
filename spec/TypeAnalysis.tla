---------------------------- MODULE TypeAnalysis ----------------------------
(* The traits #[auto_enum] takes from `impl Trait` types (feature type_analysis).

   A type is [k, b, c]: k = "impl" with its bounds b, or a type constructor ("opt", "tup", "arr",
   "ref", "box") over the types c, or a concrete type ("con").  A bound is [s, m, a]: the path of the trait as
   written ("" for a lifetime or ?Sized), how it is dressed up, and the types given for its associated type. *)
EXTENDS EnumDerive

\* the names recognised in types: every spelling of the traits of the standard library
TaNames == UNION {t.as : t \in {x \in Catalogue : x.w = "s"}}

RECURSIVE Post(_), PostSeq(_, _), PostBounds(_, _)
PostSeq(s, i) == IF i > Len(s) THEN <<>> ELSE Post(s[i]) \o PostSeq(s, i + 1)
PostBounds(b, i) == IF i > Len(b) THEN <<>> ELSE PostSeq(b[i].a, 1) \o PostBounds(b, i + 1)
\* the names of the bounds, inner types before the type they are in
Post(t) == IF t.k = "impl" THEN PostBounds(t.b, 1) \o [j \in 1..Len(t.b) |-> t.b[j].s] ELSE PostSeq(t.c, 1)

Has(q, x) == \E j \in 1..Len(q) : q[j] = x
\* one more name: taken if it is recognised and neither written in the annotation nor taken before
Take(args, got, s) == IF s \in TaNames /\ ~Has(args, s) /\ ~Has(got, s) THEN Append(got, s) ELSE got
Recognised(t) == \E j \in 1..Len(Post(t)) : Post(t)[j] \in TaNames

\* what becomes of an annotation: with the list, or nothing at all
\* (top: on a function returning impl Trait, where an inferred list needs two exits)
NoOp(args, got, top, exits) == args = <<>> /\ (got = <<>> \/ (top /\ exits < 2))
=============================================================================
