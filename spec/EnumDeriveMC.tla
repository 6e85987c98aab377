---------------------------- MODULE EnumDeriveMC ----------------------------
(* Explores EnumDerive: lists of traits resolved one argument at a time, fields of every class in
   every position, items of every shape.  Finished cases are written to OutFile; the harness
   compiles them with the real macro and compares what the compiler then knows about the enum. *)
EXTENDS EnumDerive, Json, CSV, TLC, Randomization
CONSTANTS Mode,      \* "table", "one", "pairs", "lists", "fields", "forall", "unpin", "forallu", "kinds", "items", "shapes"
          Combos,    \* sequence of [w, fs]: world and the crate features that are on
          Miss,      \* traits whose prerequisites the lists of this run always spell out
          MaxLen,    \* longest list, most variants
          OutFile
VARIABLES ph, co, l, i, out, pass, fs, it
vars == <<ph, co, l, i, out, pass, fs, it>>
Emit(x) == OutFile = "" \/ CSVWrite("%1$s", <<ToJson(x)>>, OutFile)
NoItem == [kw |-> "enum", vs |-> <<>>, ps |-> <<>>]
Init == ph = "start" /\ co = 0 /\ l = <<>> /\ i = 0 /\ out = <<>> /\ pass = <<>> /\ fs = <<>> /\ it = NoItem

Rnd(X) == {RandomElement(X)}
IsRandom == Mode \in {"lists", "items"}
Feats(c) == Combos[c].fs
\* a name may be used in a world if it denotes a trait of that world, or nothing at all
Usable(c) == {s \in Spellings : \/ s \in Unknown
                                \/ ~Supported(s, Feats(c)) /\ (Combos[c].w = "a" \/ Of[CanonOf(s)].w = Combos[c].w)
                                \/ Of[CanonOf(s)].w \in {"s", Combos[c].w}}
UsableAt == [c \in 1..Len(Combos) |-> Usable(c)]
MyTraits(c) == {n \in Canon : (Of[n].w = Combos[c].w \/ (Of[n].w = "s" /\ Combos[c].w = "a")) /\ (Of[n].std \/ Supported(CHOOSE s \in Of[n].as : TRUE, Feats(c)))}

\* names that interact with s
Near(s, c) == {x \in UsableAt[c] : x # s /\ (Meaning(x, Feats(c)) \cap Meaning(s, Feats(c)) # {})}
\* what has to be added to a list so that the prerequisites of the traits in Miss are spelled out
RECURSIVE Spell(_)
Spell(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<CHOOSE s \in Of[x].as : TRUE>> \o Spell(X \ {x})
Lacks(q, c) ==
  LET named == {CanonOf(q[k]) : k \in 1..Len(q)}
      need == UNION {IF CanonOf(q[k]) \in Miss /\ (Of[CanonOf(q[k])].std \/ Supported(q[k], Feats(c))) THEN Closure(CanonOf(q[k])) \ {CanonOf(q[k])} ELSE {} : k \in 1..Len(q)}
  IN need \ named
Complete(q, c, before) == IF before THEN Spell(Lacks(q, c)) \o q ELSE q \o Spell(Lacks(q, c))
Distinct(q) == \A a, b \in 1..Len(q) : a # b => q[a] # q[b]

------------------------------------------------------------------------------
Lists1(c) == {<<>>} \cup {<<s>> : s \in UsableAt[c]}
Pairs(c) == UNION {{<<s, x>> : x \in Near(s, c)} : s \in UsableAt[c]}
RECURSIVE RandList(_, _, _)
RandList(q, n, c) ==
  IF n = 0 THEN q
  ELSE LET near == IF q # <<>> /\ RandomElement(1..2) = 1 THEN Near(q[Len(q)], c) ELSE {}
           pool == {s \in (IF near = {} THEN UsableAt[c] ELSE near) : \A k \in 1..Len(q) : q[k] # s}
       IN IF pool = {} THEN q ELSE RandList(Append(q, RandomElement(pool)), n - 1, c)

ChooseList ==
  /\ ph = "start" /\ Mode \in {"one", "pairs", "lists"}
  /\ \E c \in IF Mode = "lists" THEN Rnd(1..Len(Combos)) ELSE 1..Len(Combos) :
     \E q \in (CASE Mode = "one" -> Lists1(c)
                 [] Mode = "pairs" -> Pairs(c)
                 [] OTHER -> {RandList(<<>>, RandomElement(3..MaxLen), c)}) :
     \E b \in IF Mode = "lists" THEN Rnd(BOOLEAN) ELSE {TRUE} :
        /\ co' = c /\ l' = Complete(q, c, b)
  /\ i' = 1 /\ ph' = "resolve" /\ UNCHANGED <<out, pass, fs, it>>

\* the next argument of the list
Resolve ==
  /\ ph = "resolve" /\ i <= Len(l)
  /\ \E todo \in {Linear(Needs(l[i], Feats(co), out))} :
        /\ out' = out \o todo
        /\ pass' = IF PassedOn(l[i], Feats(co)) THEN Append(pass, l[i]) ELSE pass
  /\ i' = i + 1 /\ UNCHANGED <<ph, co, l, fs, it>>
Resolved ==
  /\ ph = "resolve" /\ i > Len(l)
  \* #[enum_derive(l)] on an enum and #[auto_enum(l)] on code mean the same list
  /\ \A via \in IF l = <<>> THEN {"enum"} ELSE {"enum", "auto"} :
       Emit([w |-> Combos[co].w, c |-> co, l |-> l, out |-> out, pass |-> pass, via |-> via, pin |-> Pinned({out[k] : k \in 1..Len(out)})])
  /\ ph' = "done" /\ UNCHANGED <<co, l, i, out, pass, fs, it>>

------------------------------------------------------------------------------
K0 == <<0, 0>>
Classes(n) ==
  {Fld(Just(n), K0, TRUE, 0), Fld(But(n), K0, TRUE, 0)}
  \cup (IF Of[n].asc >= 1 THEN {Fld(Just(n), <<1, 0>>, TRUE, 0)} ELSE {})
  \cup (IF Of[n].asc >= 2 THEN {Fld(Just(n), <<0, 1>>, TRUE, 0)} ELSE {})
  \cup (IF Of[n].par THEN {Fld(Just(n), K0, TRUE, 1)} ELSE {})
\* ... and fields that differ in ways that must not matter
Same(n) == Classes(n) \cup {Fld(Full, K0, TRUE, 0), Fld(Just(n), <<0, 1>>, TRUE, 0)} \cup {Fld(But(p), K0, TRUE, 0) : p \in Closure(n) \ {n}}
\* many alternatives, one of which is different
Wide == 12
Spots == {1, 8, 9, 11, Wide}
FieldsOf(n) == UNION {[1..k -> IF k <= 2 THEN Same(n) ELSE Classes(n)] : k \in 1..MaxLen}
               \cup {[j \in 1..Wide |-> IF j = o THEN x ELSE Fld(Just(n), K0, TRUE, 0)] : o \in Spots, x \in Classes(n)}
Qs(n) == IF Of[n].par THEN {0, 1} ELSE {0}
ChooseFields ==
  /\ ph = "start" /\ Mode = "fields"
  /\ \E c \in 1..Len(Combos) : \E n \in MyTraits(c) :
     \E q \in {Complete(<<CHOOSE s \in Of[n].as : TRUE>>, c, TRUE)} : \E f \in FieldsOf(n) :
        /\ co' = c /\ l' = q /\ fs' = f
        /\ Emit([w |-> Combos[c].w, c |-> c, l |-> q, n |-> n, fs |-> f,
                 has |-> {[n |-> x, q |-> p, v |-> EnumHas(f, x, p), asc |-> Of[x].asc] : x \in Closure(n), p \in {0}}
                         \cup {[n |-> x, q |-> 1, v |-> EnumHas(f, x, 1), asc |-> Of[x].asc] : x \in {y \in Closure(n) : Of[y].par}}])
  /\ ph' = "done" /\ UNCHANGED <<i, out, pass, it>>

\* fields whose types are parameters: what is known of each of them, and what is asked of the enum
Knows(n) ==
  {Fld(Just(n), K0, TRUE, 0), Fld(Pre(n), K0, TRUE, 0)}
  \cup (IF Of[n].asc >= 1 THEN {Fld(Just(n), <<1, 0>>, TRUE, 0)} ELSE {})
  \cup (IF Of[n].asc >= 2 THEN {Fld(Just(n), <<0, 1>>, TRUE, 0)} ELSE {})
  \cup (IF Of[n].par THEN {Fld(Just(n), K0, TRUE, 1)} ELSE {})
OneOff(n, k) == {[j \in 1..k |-> IF j = o THEN x ELSE Fld(Just(n), K0, TRUE, 0)] : o \in 1..k, x \in Knows(n)}
ChooseForall ==
  /\ ph = "start" /\ Mode = "forall"
  /\ \E c \in 1..Len(Combos) : \E n \in MyTraits(c) : \E k \in 1..MaxLen :
     \E q \in {Complete(<<CHOOSE s \in Of[n].as : TRUE>>, c, TRUE)} :
     \E f \in IF k <= 2 THEN [1..k -> Knows(n)] ELSE OneOff(n, k) :
     \E x \in IF k = 2 THEN Closure(n) ELSE {n} :
        /\ co' = c /\ l' = q /\ fs' = f
        /\ Emit([w |-> Combos[c].w, c |-> c, l |-> q, n |-> n, fs |-> f, ask |-> x, v |-> EnumHas(f, x, 0)])
  /\ ph' = "done" /\ UNCHANGED <<i, out, pass, it>>
ChooseForallUnpin ==
  /\ ph = "start" /\ Mode = "forallu"
  /\ \E c \in 1..Len(Combos) : \E n \in MyTraits(c) : \E k \in 1..MaxLen :
     \E q \in {Complete(<<CHOOSE s \in Of[n].as : TRUE>>, c, TRUE)} : \E u \in [1..k -> BOOLEAN] :
     \E f \in {[j \in 1..k |-> Fld(IF j % 2 = 1 THEN Pre(n) ELSE Just(n), K0, u[j], 0)]} :
        /\ co' = c /\ l' = q /\ fs' = f
        /\ Emit([w |-> Combos[c].w, c |-> c, l |-> q, n |-> n, fs |-> f, ask |-> "Unpin", v |-> EnumUnpin(f)])
  /\ ph' = "done" /\ UNCHANGED <<i, out, pass, it>>

------------------------------------------------------------------------------
\* every trait by itself and a few lists: every assignment of Unpin to the fields, and what the user may add
UForms == {"unpin", "unpin-if", "unpin-pinned", "unpin-u8"}
DForms == {"drop", "drop-where"}
\* how the enum bounds its parameters: nothing, in the parameter list, in a where clause, both, more than one
GForms == {"plain", "bound", "where", "both", "many"}
ChooseUnpin ==
  /\ ph = "start" /\ Mode = "unpin"
  /\ \E c \in 1..Len(Combos) :
     \E q \in {Complete(<<CHOOSE s \in Of[n].as : TRUE>>, c, TRUE) : n \in MyTraits(c)}
              \cup {Complete(<<CHOOSE s \in Of[n].as : TRUE, CHOOSE s \in Of[m].as : TRUE>>, c, TRUE) :
                      n, m \in {x \in MyTraits(c) : x \in {"Future", "Iterator", "Debug", "Clone", "futures03::Stream", "tokio1::AsyncRead", "tokio02::AsyncWrite", "tokio03::AsyncSeek", "futures01::Future"}}}
              \cup {<<>>} :
     \E k \in 1..MaxLen \cup (IF Len(q) = 1 THEN {Wide} ELSE {}) :
     \E u \in IF k <= MaxLen THEN [1..k -> BOOLEAN] ELSE {[j \in 1..k |-> j # o] : o \in Spots \cup {0}} :
        /\ Distinct(q) /\ co' = c /\ l' = q /\ fs' = [j \in 1..k |-> Fld(Full, K0, u[j], 0)]
  /\ ph' = "unpin" /\ UNCHANGED <<i, out, pass, it>>
Unpin ==
  /\ ph = "unpin"
  /\ LET X == ListMeaning(l, Feats(co))
     IN \A g \in (IF Len(fs) = 2 THEN GForms ELSE {"plain"}) :
        Emit([w |-> Combos[co].w, c |-> co, l |-> l, fs |-> fs, g |-> g, unpin |-> EnumUnpin(fs), pin |-> Pinned(X),
              may |-> {[f |-> x, v |-> MayImplUnpin(X)] : x \in UForms} \cup (IF Pinned(X) \/ MayImplDrop(X) THEN {[f |-> x, v |-> MayImplDrop(X)] : x \in DForms} ELSE {})])
  /\ ph' = "done" /\ UNCHANGED <<co, l, i, out, pass, fs, it>>

------------------------------------------------------------------------------
Par(k, nm, b, d) == [k |-> k, nm |-> nm, b |-> b, d |-> d]
Var(k, nm, f, d, at) == [k |-> k, nm |-> nm, f |-> f, d |-> d, at |-> at]
Item(nm, vis, at, scope, wh, ps, vs) == [kw |-> "enum", nm |-> nm, vis |-> vis, at |-> at, sc |-> scope, wh |-> wh, ps |-> ps, vs |-> vs]
Fi(k, j) == [k |-> k, i |-> j]
VNames == <<"V0", "V1", "V2", "V3">>

\* every sequence of kinds of variants
ChooseKinds ==
  /\ ph = "start" /\ Mode = "kinds"
  /\ \E c \in {1} : \E q \in {<<"Iterator">>, <<"Clone">>, <<"Future">>, <<>>} :
     \E n \in 0..MaxLen : \E ks \in [1..n -> Kinds] : \E d \in {0} \cup 1..n : \E kw \in {"enum"} \cup (IF n = 1 THEN {"struct", "union", "fn", "mod", "trait", "type", "const"} ELSE {}) :
        /\ co' = c /\ l' = q
        /\ kw # "enum" => (ks[1] = "one" /\ d = 0)
        /\ d # 0 => q = <<"Iterator">>
        /\ it' = [Item("E", "pub ", <<>>, "plain", "", <<Par("type", "A", "", FALSE)>>,
                      [j \in 1..n |-> Var(ks[j], VNames[j], Fi("par", 1), j = d, FALSE)]) EXCEPT !.kw = kw]
  /\ ph' = "item" /\ UNCHANGED <<i, out, pass, fs>>

\* generics of the items explored for every trait
P3(a, b, c) == <<Par("type", a, "", FALSE), Par("type", b, "", FALSE), Par("type", c, "", FALSE)>>
V(ns, f) == [j \in 1..Len(f) |-> Var("one", ns[j], f[j], FALSE, FALSE)]
Templates ==
  {Item("E", "pub ", <<>>, "plain", "", P3("T", "R", "E"), V(VNames, <<Fi("par", 1), Fi("par", 2), Fi("par", 3)>>)),
   Item("Option", "", <<"doc">>, "hostile", "", <<Par("type", "A", "sized", FALSE), Par("type", "B", "mk", TRUE)>>, V(<<"Some", "None">>, <<Fi("par", 1), Fi("par", 2)>>)),
   Item("Result", "pub(crate) ", <<"nop">>, "plain", "mk", <<Par("life", "'a", "", FALSE), Par("const", "N", "", FALSE), Par("type", "A", "life", FALSE)>>, V(<<"Ok", "Err">>, <<Fi("all", 3), Fi("par", 3)>>)),
   Item("E", "pub(super) ", <<"allow">>, "plain", "hrtb", <<Par("type", "A", "", FALSE)>>, V(<<"A", "B", "C">>, <<Fi("par", 1), Fi("par", 1), Fi("wrap", 1)>>)),
   Item("Pin", "pub ", <<"must">>, "plain", "empty", <<Par("type", "U", "static", TRUE), Par("type", "T", "", TRUE), Par("const", "N", "", TRUE)>>, V(<<"T", "U">>, <<Fi("wrap", 2), Fi("all", 1)>>)),
   Item("r#type", "pub ", <<>>, "hostile", "trail", <<Par("life", "'x", "", FALSE), Par("life", "'a", "out", FALSE), Par("type", "A", "", FALSE)>>, V(<<"r#match">>, <<Fi("all", 3)>>)),
   Item("E", "pub ", <<>>, "plain", "", <<>>, V(VNames, <<Fi("conc", 0), Fi("conc", 0)>>)),
   Item("E", "pub ", <<>>, "plain", "", <<Par("type", "A", "", FALSE)>>, V(VNames, <<Fi("conc", 0), Fi("par", 1), Fi("conc", 0)>>))}
ChooseShape ==
  /\ ph = "start" /\ Mode = "shapes"
  /\ \E c \in 1..Len(Combos) : \E n \in MyTraits(c) : \E x \in Templates :
        /\ ConcreteOK(x, Closure(n)) /\ LegalStd(x, Closure(n))
        /\ co' = c /\ l' = Complete(<<CHOOSE s \in Of[n].as : TRUE>>, c, TRUE) /\ it' = x
  /\ ph' = "item" /\ UNCHANGED <<i, out, pass, fs>>

\* random items
R1(X) == RandomElement(X)
RandParams ==
  LET nl == R1({0, 0, 0, 1, 2}) nt == R1(1..3) nc == R1({0, 0, 1})
      base == R1({<<"A", "B", "C">>, <<"T", "U", "R">>, <<"E", "F", "I">>, <<"S", "V0", "V1">>, <<"Item", "Output", "Some">>, <<"Future", "Iterator", "Self_">>})
      ls == [j \in 1..nl |-> Par("life", <<"'a", "'b">>[j], IF j = 2 THEN R1({"", "out"}) ELSE "", FALSE)]
      df == R1({0, 0, 1})
      tys == [j \in 1..nt |-> Par("type", base[j], R1({"", "", "sized", "mk", "static"} \cup (IF nl > 0 THEN {"life"} ELSE {})), df = 1 \/ (j = nt /\ R1(1..4) = 1 /\ nc = 0))]
      cs == [j \in 1..nc |-> Par("const", R1({"N", "X"}), "", df = 1)]
  IN ls \o (IF R1(BOOLEAN) /\ df = 0 /\ (nt = 0 \/ ~tys[nt].d) THEN cs \o tys ELSE tys \o cs)
RandItem(c) ==
  LET ps == RandParams
      ts == {j \in 1..Len(ps) : ps[j].k = "type"}
      nv == R1(1..4)
      nms == R1({VNames, <<"A", "B", "C", "D">>, <<"Some", "None", "Ok", "Err">>, <<"r#match", "T", "x", "N">>, <<"Read", "Poll", "Pending", "Ready">>})
      vs == [j \in 1..nv |-> Var("one", nms[j], R1({Fi("par", t) : t \in ts} \cup {Fi("wrap", t) : t \in ts} \cup {Fi("all", t) : t \in ts} \cup {Fi("conc", 0)}), FALSE, R1(BOOLEAN))]
  IN Item(R1({"E", "E", "Option", "Result", "Box", "Iterator", "r#type", "Vec", "Drop", "Unpin", "Some"}), R1({"", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate) "}),
          R1({<<>>, <<"doc">>, <<"nop">>, <<"allow", "doc">>, <<"must", "nop">>, <<"cfg">>, <<"derive">>, <<"doc", "derive">>, <<"exh">>}), R1({"plain", "plain", "hostile"}),
          R1({"", "", "mk", "hrtb", "empty", "trail"}), ps, vs)
RECURSIVE RandLegal(_, _, _)
RandLegal(c, n, tries) ==
  LET x == RandItem(c)
  IN IF tries = 0 \/ (LegalRust(x) /\ ConcreteOK(x, Closure(n)) /\ LegalStd(x, Closure(n))) THEN x ELSE RandLegal(c, n, tries - 1)
ChooseItem ==
  /\ ph = "start" /\ Mode = "items"
  /\ \E c \in Rnd(1..Len(Combos)) : \E n \in Rnd(MyTraits(c)) : \E x \in {RandLegal(c, n, 30)} :
     \E q \in {Complete(<<CHOOSE s \in Of[n].as : TRUE>>, c, TRUE)} :
        /\ LegalRust(x) /\ ConcreteOK(x, Closure(n)) /\ LegalStd(x, Closure(n))
        /\ co' = c /\ l' = q /\ it' = x
  /\ ph' = "item" /\ UNCHANGED <<i, out, pass, fs>>
Shape ==
  /\ ph = "item"
  /\ Emit([w |-> Combos[co].w, c |-> co, l |-> l, it |-> it, ok |-> Accepted(it), means |-> ListMeaning(l, Feats(co)),
           pin |-> Pinned(ListMeaning(l, Feats(co))), legal |-> LegalRust(it)])
  /\ ph' = "done" /\ UNCHANGED <<co, l, i, out, pass, fs, it>>

------------------------------------------------------------------------------
ShowTable == ph = "start" /\ Mode = "table" /\ Emit({[n |-> t.n, as |-> t.as, f |-> t.f, w |-> t.w, ds |-> t.ds, up |-> Closure(t.n) \ {t.n}, pin |-> t.pin,
                                                       asc |-> t.asc, par |-> t.par, std |-> t.std] : t \in Catalogue})
             /\ ph' = "done" /\ UNCHANGED <<co, l, i, out, pass, fs, it>>
Next == ShowTable \/ ChooseList \/ Resolve \/ Resolved \/ ChooseFields \/ ChooseForall \/ ChooseForallUnpin \/ ChooseUnpin \/ Unpin \/ ChooseKinds \/ ChooseShape \/ ChooseItem \/ Shape
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Range(q) == {q[k] : k \in 1..Len(q)}
\* no trait is implemented twice, whatever the list
EachOnce == \A a, b \in 1..Len(out) : a # b => out[a] # out[b]
\* prerequisites are there (and come first)
PrereqFirst == \A a \in 1..Len(out) : \A p \in Of[out[a]].ds : \E b \in 1..(a - 1) : out[b] = p
\* exactly the listed traits and their prerequisites, so the order of the list does not matter
ExactlyListed == (ph = "done" /\ l # <<>> /\ out # <<>>) => Range(out) = ListMeaning(l, Feats(co))
\* what is passed on is what this crate does not implement, in the order written
OnlyUnsupported == \A a \in 1..Len(pass) : PassedOn(pass[a], Feats(co))
\* all spellings of a trait mean the same
OneMeaning == \A t \in Catalogue : \A x, y \in t.as : CanonOf(x) = t.n /\ CanonOf(x) = CanonOf(y)
\* prerequisites never point outside the world or to a trait that cannot be had
Grounded == \A t \in Catalogue : \A p \in t.ds : p \in Canon /\ Of[p].w \in {"s", t.w}
\* a trait holds of the enum only if its prerequisites do
HasUpward == (ph = "done" /\ Mode \in {"fields", "forall"}) =>
               \A n \in ListMeaning(l, Feats(co)) : EnumHas(fs, n, 0) => \A p \in Of[n].ds : EnumHas(fs, p, 0)
=============================================================================
