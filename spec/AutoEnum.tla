------------------------------ MODULE AutoEnum ------------------------------
(***************************************************************************)
(* An explicit model of the `#[auto_enum]` attribute macro.                *)
(*                                                                         *)
(* The system modelled is: a user's program P with annotations; the macro, *)
(* which walks P in the passes the implementation has (count the exits of  *)
(* the annotated scope, walk the tail expression, visit the body - with    *)
(* nested annotations expanded on the way back up -, build the enum) and   *)
(* produces an expanded program P' or a list of errors; and the execution  *)
(* of P and of P' under every sequence of environment decisions.           *)
(*                                                                         *)
(* This module holds the definitions: syntax, the macro's passes           *)
(* (transcribed rule by rule from the documented behaviour and the code),  *)
(* a type checker for P', and a big-step evaluator common to P and P'.     *)
(* `AutoEnumMC` adds the state machine (derivation of P from a grammar,    *)
(* the passes, the runs), the properties and the emission of conformance   *)
(* cases that are replayed on the real macro.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(***************************************************************************)
(* Syntax.  A node is a record with uniform fields:                        *)
(*   k kind, s a name (label, marker, macro, entry form), n a number,      *)
(*   a set of helper attributes, m the annotation ("" for none),           *)
(*   c the children in source order.                                       *)
(***************************************************************************)
Nd(k, s, n, c) == [k |-> k, s |-> s, n |-> n, a |-> {}, m |-> "", c |-> c]

Leaf(n)      == Nd("leaf", "", n, <<>>)
UnitE        == Nd("unit", "", 0, <<>>)
IfE(t, e)    == Nd("if", "", 0, <<t, e>>)
If1(t)       == Nd("if", "", 0, <<t>>)
MatchE(arms) == Nd("match", "", 0, arms)
Arm(b)       == Nd("arm", "", 0, <<b>>)
Blk(ss)      == Nd("block", "", 0, ss)
LBlk(l, ss)  == Nd("block", l, 0, ss)
Unsafe(ss)   == Nd("unsafe", "", 0, ss)
Paren(e)     == Nd("paren", "", 0, <<e>>)
Meth(e)      == Nd("meth", "", 0, <<e>>)
LoopE(l, b)  == Nd("loop", l, 0, <<b>>)
WhileE(l, b) == Nd("while", l, 0, <<b>>)
ForE(l, h, b) == Nd("for", l, 0, <<h, b>>)
\* n = 1: the first child is a block executed on the way to the decision, e.g. `if { h; b() } {..}`
IfHE(h, t, e)  == Nd("if", "", 1, <<h, t, e>>)
IfH1(h, t)     == Nd("if", "", 1, <<h, t>>)
MatchH(h, as)  == Nd("match", "", 1, <<h>> \o as)
WhileH(l, h, b) == Nd("while", l, 1, <<h, b>>)
GArm(h, b)     == Nd("arm", "", 0, <<h, b>>)     \* an arm whose guard executes h and holds
IterE        == Nd("iter", "", 0, <<>>)
Brk(l, c)    == Nd("break", l, 0, c)
Cont(l)      == Nd("cont", l, 0, <<>>)
Ret(c)       == Nd("ret", "", 0, c)
Mac(s, c)    == Nd("mac", s, 0, c)
TryE(e)      == Nd("try", "", 0, <<e>>)
Fal(n)       == Nd("fal", "", n, <<>>)
FalFal       == Nd("falfal", "", 0, <<>>)   \* a fallible call whose success is itself a Result<L<4>, E<3>>
IdF(e)       == Nd("idf", "", 0, <<e>>)      \* the value of e through an expression that is not looked into
NoneE        == Nd("none", "", 0, <<>>)
ErrC(n)      == Nd("errc", "", n, <<>>)
OkC(e)       == Nd("okc", "", 0, <<e>>)
OkT(o, r, e) == Nd("okc", "L<" \o ToString(o) \o ">, E<" \o ToString(r) \o ">", 0, <<e>>)  \* Ok::<L<o>, E<r>>(e)
SomeC(e)     == Nd("somec", "", 0, <<e>>)
ErrW(e)      == Nd("errw", "", 0, <<e>>)     \* Err(<e>) with e an expression
ErrLeaf(n)   == Nd("eleaf", "", n, <<>>)     \* a bare error value
Clos(b)      == Nd("clos", "", 0, <<b>>)
Async(b)     == Nd("async", "", 0, <<b>>)
Call(e)      == Nd("call", "", 0, <<e>>)
Bo(e)        == Nd("bo", "", 0, <<e>>)       \* drive a future to completion
See(e)       == Nd("see", "", 0, <<e>>)
Var(n)       == Nd("var", "", n, <<>>)
ICall(s)     == Nd("icall", s, 0, <<>>)      \* call the nested function declared just before
Die          == Nd("die", "", 0, <<>>)       \* a call of a function returning `!`
Semi(e)      == Nd("semi", "", 0, <<e>>)
Let(n, e)    == Nd("let", "", n, <<e>>)
LetU(n)      == Nd("let", "", n, <<>>)
LElse(b)     == Nd("lelse", "", 0, <<b>>)     \* let true = <decision> else { b };
TryB(b)      == Nd("tryb", "", 6, <<b>>)      \* try { b }: Result<L<6>, E<5>>
UMac(n)      == Nd("mac", "val", n, <<>>)      \* val!(n): a macro of the user, standing for l::<n>()
ItemS(s, c)  == Nd("item", s, 0, c)
Wrap(id, i, e) == Nd("wrap", id, i, <<e>>)
EnumItem(id) == Nd("enum", id, 0, <<>>)
TryMatch(e, w) == Nd("trym", "", 0, <<e, w>>) \* match e {Ok(v)=>v, Err(err)=>return Err(w)}
ErrVar       == Nd("errvar", "", 0, <<>>)
Div          == Nd("div", "", 0, <<>>)        \* place holder

At(e, attrs) == [e EXCEPT !.a = @ \cup attrs]
An(e, m)     == [e EXCEPT !.m = m]

LastOf(s) == s[Len(s)]
SetLast(s, x) == [s EXCEPT ![Len(s)] = x]

StmtKinds == {"semi", "let", "lelse", "item", "enum"}
DivMacros == {"panic", "unreachable", "std::panic", "core::unreachable", "std::unreachable", "core::panic"}

(***************************************************************************)
(* Annotation arguments.  d: trait arguments present; mk: the marker name; *)
(* cu: marker given explicitly; bad: the argument list does not parse, or  *)
(* the attribute has the wrong shape (at: where that is an error).         *)
(***************************************************************************)
DEFAULT == "marker"
Ann(m) ==
  CASE m = "D"    -> [d |-> TRUE,  mk |-> DEFAULT, cu |-> FALSE, bad |-> ""]
    [] m = "Dp"   -> [d |-> TRUE,  mk |-> DEFAULT, cu |-> FALSE, bad |-> ""]     \* Debug, Display
    [] m = "Dm1"  -> [d |-> TRUE,  mk |-> "m1",    cu |-> TRUE,  bad |-> ""]
    [] m = "Dm2"  -> [d |-> TRUE,  mk |-> "m2",    cu |-> TRUE,  bad |-> ""]
    [] m = "Dmm"  -> [d |-> TRUE,  mk |-> DEFAULT, cu |-> TRUE,  bad |-> ""]     \* marker = marker
    [] m = "E"    -> [d |-> FALSE, mk |-> DEFAULT, cu |-> FALSE, bad |-> ""]     \* bare #[auto_enum]
    [] m = "E0"   -> [d |-> FALSE, mk |-> DEFAULT, cu |-> FALSE, bad |-> ""]     \* #[auto_enum()]
    [] m = "Em1"  -> [d |-> FALSE, mk |-> "m1",    cu |-> TRUE,  bad |-> ""]
    [] m = "Xdup" -> [d |-> TRUE,  mk |-> "m1",    cu |-> TRUE,  bad |-> "dup"]  \* duplicate marker
    [] m = "Xsemi" -> [d |-> TRUE, mk |-> DEFAULT, cu |-> FALSE, bad |-> "syntax"]
    [] m = "Xmk"  -> [d |-> TRUE,  mk |-> DEFAULT, cu |-> FALSE, bad |-> "syntax"]  \* marker(..)
    [] m = "Xmk0" -> [d |-> TRUE,  mk |-> DEFAULT, cu |-> FALSE, bad |-> "syntax"]  \* marker = ,
    [] m \in {"Xdup2", "Xdup3"} -> [d |-> TRUE, mk |-> "m1", cu |-> TRUE, bad |-> "dup"]  \* the same name twice
    [] m \in {"Xmk1", "Xmkp", "Xmks", "Xcom", "Xcc", "Xsp"} -> [d |-> TRUE, mk |-> DEFAULT, cu |-> FALSE, bad |-> "syntax"]
    [] m = "Dtc"  -> [d |-> TRUE,  mk |-> DEFAULT, cu |-> FALSE, bad |-> ""]     \* trailing comma
    [] m = "Dm1t" -> [d |-> TRUE,  mk |-> "m1",    cu |-> TRUE,  bad |-> ""]
    [] m = "Xnv"  -> [d |-> FALSE, mk |-> DEFAULT, cu |-> FALSE, bad |-> "shape"]   \* #[auto_enum = ""]
    [] OTHER      -> [d |-> FALSE, mk |-> DEFAULT, cu |-> FALSE, bad |-> ""]

MarkerNames == {"marker", "m1", "m2"}

(***************************************************************************)
(* The context of one annotation while it is being expanded.               *)
(*  id    identity of its enum                                             *)
(*  cur   its marker name            vis  markers visible to it            *)
(*  root  it is not inside another annotation's expansion                  *)
(*  kid   another annotation was found inside it                           *)
(*  mode  "N" | "R" (returns) | "T" (`?`)     cnt  number of returns       *)
(*  nolast  its value is discarded (expression statement with `;`)         *)
(*  nv    alternatives so far        errs  errors so far                   *)
(*  d     it has trait arguments (written or inferred)                     *)
(*  w     written trait arguments                                          *)
(***************************************************************************)
NewCx(id, m, root, vis, d) ==
  [id |-> id, cur |-> Ann(m).mk, vis |-> vis, root |-> root, kid |-> FALSE,
   mode |-> "N", cnt |-> 0, nolast |-> FALSE, nv |-> 0, errs |-> <<>>, d |-> d, w |-> Ann(m).d,
   nid |-> 0]

Err(cx, e)   == [cx EXCEPT !.errs = Append(@, e)]
HasErr(cx)   == cx.errs # <<>>
VisitLast(cx) == ~cx.nolast /\ cx.mode # "T"
IsMk(cx, name) == name = cx.cur \/ (~cx.root /\ \E i \in 1..Len(cx.vis) : cx.vis[i] = name)
IsMkE(cx, e) == e.k = "mac" /\ IsMk(cx, e.s)

R(e, x) == [e |-> e, x |-> x]
NextE(cx, e) == R(Wrap(cx.id, cx.nv, e), [cx EXCEPT !.nv = @ + 1])

(***************************************************************************)
(* Which expressions yield no value.                                       *)
(***************************************************************************)
UnrMac(cx, s) == s \in DivMacros \/ IsMk(cx, s)

RECURSIVE Unr(_, _), UnrStmt(_, _)
Unr(cx, e) ==
  \/ "never" \in e.a
  \/ e.m # ""
  \/ CASE e.k \in {"block", "unsafe"} -> Len(e.c) > 0 /\ UnrStmt(cx, LastOf(e.c))
       [] e.k \in {"break", "cont", "ret"} -> TRUE
       [] e.k = "mac"   -> UnrMac(cx, e.s)
       [] e.k = "match" -> \A i \in (1 + e.n)..Len(e.c) : "never" \in e.c[i].a \/ Unr(cx, LastOf(e.c[i].c))
       [] e.k = "try"   -> e.c[1].k \in {"none", "errc", "errw"}
       [] e.k \in {"meth", "paren"} -> Unr(cx, e.c[1])
       [] OTHER -> FALSE
UnrStmt(cx, s) ==
  CASE s.k = "semi" -> Unr(cx, s.c[1])
    [] s.k = "let"  -> s.c # <<>> /\ Unr(cx, s.c[1])
    [] s.k \in {"item", "enum"} -> TRUE
    [] OTHER        -> Unr(cx, s)

(***************************************************************************)
(* Is there a `#[nested]` in this subtree (not below another annotation)?  *)
(***************************************************************************)
RECURSIVE FindNested(_)
FindNested(e) ==
  CASE e.k \in {"item", "enum", "mac"} -> "nested" \in e.a
    [] e.k = "semi" -> FindNested(e.c[1])
    [] e.k = "arm"  -> "nested" \in e.a \/ \E i \in 1..Len(e.c) : FindNested(e.c[i])
    [] OTHER -> /\ e.m = ""
                /\ \/ "nested" \in e.a
                   \/ \E i \in 1..Len(e.c) : FindNested(e.c[i])

(***************************************************************************)
(* Exits of the annotated scope: returns and `?`.  Closures and async      *)
(* blocks have their own returns; items and macro arguments are opaque.    *)
(***************************************************************************)
Cnt(t, r) == [t |-> t, r |-> r]
Add(a, b) == [t |-> a.t + b.t, r |-> a.r + b.r]
RECURSIVE CountFn(_, _), CountSeq(_, _, _)
CountSeq(cx, s, i) == IF i > Len(s) THEN Cnt(0, 0) ELSE Add(CountFn(cx, s[i]), CountSeq(cx, s, i + 1))
CountFn(cx, e) ==
  IF e.k \in {"clos", "async", "tryb", "item", "mac", "enum"} THEN Cnt(0, 0)
  ELSE LET own == IF "never" \in e.a /\ e.k \notin {"arm", "let"} THEN Cnt(0, 0)
                  ELSE IF e.k = "try" /\ ~IsMkE(cx, e.c[1]) THEN Cnt(1, 0)
                  ELSE IF e.k = "ret" /\ ~(e.c # <<>> /\ IsMkE(cx, e.c[1])) THEN Cnt(0, 1)
                  ELSE Cnt(0, 0)
       IN Add(own, CountSeq(cx, e.c, 1))

(***************************************************************************)
(* The breaks that leave an annotated loop.  in: inside another loop.      *)
(***************************************************************************)
ReplaceOpt(cx, e) ==   \* e: a break or return; wrap its value unless it is a marker
  LET v == IF e.c = <<>> THEN UnitE ELSE e.c[1]
  IN IF IsMkE(cx, v) THEN R([e EXCEPT !.c = <<v>>], cx)
     ELSE LET w == NextE(cx, v) IN R([e EXCEPT !.c = <<w.e>>], w.x)

RECURSIVE LoopV(_, _, _, _), LoopSeq(_, _, _, _, _)
LoopSeq(cx, s, i, lab, in) ==
  IF i > Len(s) THEN R(s, cx)
  ELSE LET r == LoopV(cx, s[i], lab, in) IN LoopSeq(r.x, [s EXCEPT ![i] = r.e], i + 1, lab, in)
LoopKids(cx, e, lab, in) == LET r == LoopSeq(cx, e.c, 1, lab, in) IN R([e EXCEPT !.c = r.e], r.x)
LoopV(cx, e, lab, in) ==
  CASE e.k \in {"item", "enum", "mac"} -> R(e, cx)
    [] e.k \in {"semi", "arm", "let"} -> LoopKids(cx, e, lab, in)
    [] "never" \in e.a -> R(e, cx)
    [] e.k \in {"clos", "async"} -> R(e, cx)
    [] e.k = "for" ->      \* the head is outside the inner loop
         LET h == LoopV(cx, e.c[1], lab, in)
             b == IF lab = "" \/ e.s = lab THEN R(e.c[2], h.x) ELSE LoopV(h.x, e.c[2], lab, TRUE)
         IN R([e EXCEPT !.c = <<h.e, b.e>>], b.x)
    [] e.k \in {"loop", "while"} ->
         IF lab = "" \/ e.s = lab THEN R(e, cx) ELSE LoopKids(cx, e, lab, TRUE)
    [] e.k = "block" /\ lab # "" /\ e.s = lab -> R(e, cx)
    [] e.k = "break" ->
         IF (~in /\ e.s = "") \/ (lab # "" /\ e.s = lab)
         THEN LET r == ReplaceOpt(cx, e) IN LoopKids(r.x, r.e, lab, in)
         ELSE LoopKids(cx, e, lab, in)
    [] OTHER -> LoopKids(cx, e, lab, in)

(***************************************************************************)
(* The walk of a tail expression: each branch becomes an alternative.      *)
(***************************************************************************)
SkipArm(cx, a) == "never" \in a.a \/ "nested" \in a.a \/ Unr(cx, LastOf(a.c)) \/ FindNested(a)
SkipBlk(cx, b) ==
  IF b.c = <<>> THEN FALSE
  ELSE LET l == LastOf(b.c) IN
       IF l.k \in StmtKinds THEN UnrStmt(cx, l)
       ELSE "nested" \in l.a \/ Unr(cx, l) \/ (\E i \in 1..Len(b.c) : FindNested(b.c[i]))

RECURSIVE Walk(_, _), WalkArms(_, _, _), WalkIf(_, _)
WalkArms(cx, s, i) ==
  IF i > Len(s) THEN R(s, cx)
  ELSE IF SkipArm(cx, s[i]) THEN WalkArms(cx, s, i + 1)
  ELSE LET w == NextE(cx, LastOf(s[i].c)) IN WalkArms(w.x, [s EXCEPT ![i].c = SetLast(@, w.e)], i + 1)
WalkIf(cx, e) ==
  LET i == 1 + e.n      \* the then branch
      t == IF SkipBlk(cx, e.c[i]) THEN R(e.c[i], cx)
           ELSE LET w == NextE(cx, Blk(e.c[i].c)) IN R([e.c[i] EXCEPT !.c = <<w.e>>], w.x)
  IN IF Len(e.c) = i THEN R([e EXCEPT !.c[i] = t.e], Err(t.x, "noelse"))
     ELSE LET b == e.c[i + 1]
              f == IF b.k = "if" THEN WalkIf(t.x, b)
                   ELSE IF SkipBlk(t.x, b) THEN R(b, t.x)
                   ELSE LET w == NextE(t.x, Blk(b.c)) IN R([b EXCEPT !.c = <<w.e>>], w.x)
          IN R([e EXCEPT !.c[i] = t.e, !.c[i + 1] = f.e], f.x)
Walk(cx, e) ==
  IF ~VisitLast(cx) \/ Unr(cx, e) THEN R(e, cx)
  ELSE CASE e.k \in {"block", "unsafe"} ->
              IF e.c # <<>> /\ LastOf(e.c).k \notin StmtKinds
              THEN LET r == Walk(cx, LastOf(e.c)) IN R([e EXCEPT !.c = SetLast(@, r.e)], r.x)
              ELSE R(e, cx)
         [] e.k = "match" -> LET r == WalkArms(cx, e.c, 1 + e.n) IN R([e EXCEPT !.c = r.e], r.x)
         [] e.k = "if"    -> WalkIf(cx, e)
         [] e.k = "loop"  -> LET r == LoopSeq(cx, e.c[1].c, 1, e.s, FALSE)
                             IN R([e EXCEPT !.c = <<[e.c[1] EXCEPT !.c = r.e]>>], r.x)
         [] e.k \in {"meth", "paren"} -> LET r == Walk(cx, e.c[1]) IN R([e EXCEPT !.c = <<r.e>>], r.x)
         [] OTHER -> R(e, cx)

(***************************************************************************)
(* The body visitor, and the expansion of annotations found on the way.    *)
(* sc: cl in a closure or async block; fo inside another annotation.       *)
(***************************************************************************)
BuildOk(cx) == ~HasErr(cx) /\ (cx.nv >= 2 \/ (cx.nv = 0 /\ cx.kid))
Build(cx) == IF HasErr(cx) \/ BuildOk(cx) THEN cx
             ELSE Err(cx, (IF cx.nv = 0 THEN "no" ELSE "one") \o (IF cx.nolast THEN "-marker" ELSE "-branch"))
MakesEnum(cx) == ~HasErr(cx) /\ cx.nv >= 2

RmAttrs(cx, e) ==   \* the helper attributes are consumed
  LET x1 == IF "never()" \in e.a THEN Err(cx, "attr-args") ELSE cx
      x2 == IF "rec" \in e.a THEN Err(x1, "rec") ELSE x1
  IN R([e EXCEPT !.a = @ \ {"never", "never()", "rec"}], x2)

NestedAttr(cx, e) == "nested" \in e.a \/ "nested()" \in e.a
DropNested(e) == [e EXCEPT !.a = @ \ {"nested", "nested()"}]

DoReturn(cx, sc, e) ==
  IF e.k = "ret" /\ ~sc.cl /\ "never" \notin e.a THEN ReplaceOpt(cx, e) ELSE R(e, cx)
DoTry(cx, sc, e) ==
  IF e.k = "try" /\ ~sc.cl /\ "never" \notin e.a /\ ~IsMkE(cx, e.c[1])
  THEN LET w == NextE(cx, ErrVar) IN R([TryMatch(e.c[1], w.e) EXCEPT !.a = e.a], w.x)
  ELSE R(e, cx)

NestE(cx, e) == IF "nested()" \in e.a THEN R(e, Err(cx, "attr-args")) ELSE Walk(cx, e)

KidCx(cx, m, ta) ==   \* the context of an annotation found while expanding cx
  LET an == Ann(m)
      bad == IF an.bad # "" THEN an.bad
             ELSE IF an.cu /\ \E i \in 1..Len(cx.vis) : cx.vis[i] = an.mk THEN "dupmarker" ELSE ""
  IN [bad |-> bad,
      x |-> [NewCx(cx.id \o "." \o ToString(cx.nid), m, FALSE, Append(cx.vis, an.mk), an.d \/ ta)
               EXCEPT !.errs = cx.errs]]

RECURSIVE Vis(_, _, _, _), VisSeq(_, _, _, _), VisStmt(_, _, _), ExpandKidE(_, _, _), ExpandKidLet(_, _)
RECURSIVE ExpandBody(_, _, _)

VisSeq(cx, s, i, sc) ==
  IF i > Len(s) THEN R(s, cx)
  ELSE LET r == VisStmt(cx, s[i], sc) IN VisSeq(r.x, [s EXCEPT ![i] = r.e], i + 1, sc)
VisKids(cx, e, sc) ==
  IF e.k \in {"mac", "item", "enum"} THEN R(e, cx)
  ELSE LET r == VisSeq(cx, e.c, 1, sc) IN R([e EXCEPT !.c = r.e], r.x)

\* the step shared by expressions and lets: create the inner context,
\* visit below with the OUTER context, then expand the inner annotation
WithKid(cx, e, sc, kid, expand(_, _)) ==
  IF kid.bad # "" THEN LET r == VisKids(cx, e, sc) IN R(r.e, Err(r.x, kid.bad))
  ELSE LET cx1 == [cx EXCEPT !.vis = Append(@, kid.x.cur), !.nid = @ + 1, !.errs = <<>>]
           r == VisKids(cx1, e, sc)
           k == expand(kid.x, r.e)
       IN R(k.e, [r.x EXCEPT !.vis = cx.vis, !.errs = @ \o k.x.errs])

Vis(cx, e, sc, semi) ==   \* an expression
  IF HasErr(cx) THEN R(e, cx)
  ELSE
  LET sc1 == [cl |-> sc.cl \/ e.k \in {"clos", "async", "tryb"}, fo |-> sc.fo \/ e.m # ""]
      cx1 == IF e.m # "" THEN [cx EXCEPT !.kid = TRUE] ELSE cx
      r1  == CASE cx1.mode = "R" -> DoReturn(cx1, sc1, e)
               [] cx1.mode = "T" -> DoTry(cx1, sc1, e)
               [] OTHER -> R(e, cx1)
      r2  == IF ~sc1.fo /\ NestedAttr(cx, r1.e)
             THEN LET n == NestE(r1.x, r1.e) IN R(DropNested(n.e), n.x)
             ELSE r1
      e2  == [r2.e EXCEPT !.m = ""]
      r3  == IF e.m = "" THEN VisKids(r2.x, e2, sc1)
             ELSE IF e.m \in {"E", "Xnv"}   \* an expression needs a parenthesised list
             THEN LET r == VisKids(r2.x, e2, sc1) IN R(r.e, Err(r.x, "shape"))
             ELSE WithKid(r2.x, e2, sc1, KidCx(r2.x, e.m, FALSE), LAMBDA x, y : ExpandKidE(x, y, semi))
      r4  == IF ~sc1.fo \/ cx.cur # DEFAULT
             THEN LET mk == IF r3.e.k = "mac" /\ r3.e.s = cx.cur
                            THEN IF r3.e.c = <<>> THEN R(r3.e, Err(r3.x, "emptymarker"))
                                 ELSE IF HasErr(r3.x) THEN R(r3.e.c[1], r3.x)
                                 ELSE LET w == NextE(r3.x, r3.e.c[1]) IN R(At(w.e, r3.e.a), w.x)
                            ELSE r3
                  IN IF sc1.fo THEN mk ELSE RmAttrs(mk.x, mk.e)
             ELSE r3
  IN r4

VisStmt(cx, s, sc) ==   \* any child of an expression
  IF HasErr(cx) THEN R(s, cx)
  ELSE CASE s.k = "semi" -> LET r == Vis(cx, s.c[1], sc, TRUE) IN R([s EXCEPT !.c = <<r.e>>], r.x)
         [] s.k \in {"item", "enum"} -> R(s, cx)
         [] s.k = "arm" ->
              LET r1 == IF ~sc.fo /\ NestedAttr(cx, s)
                        THEN IF "nested()" \in s.a THEN R(DropNested(s), Err(cx, "attr-args"))
                             ELSE LET n == Walk(cx, LastOf(s.c)) IN R(DropNested([s EXCEPT !.c = SetLast(@, n.e)]), n.x)
                        ELSE R(s, cx)
                  r2 == VisKids(r1.x, r1.e, sc)
              IN IF sc.fo THEN r2 ELSE RmAttrs(r2.x, r2.e)
         [] s.k = "let" ->
              LET sc1 == [sc EXCEPT !.fo = @ \/ s.m # ""]
                  cx1 == IF s.m # "" THEN [cx EXCEPT !.kid = TRUE] ELSE cx
                  s0  == [s EXCEPT !.m = ""]
                  r1  == IF ~sc1.fo /\ NestedAttr(cx, s0)
                         THEN IF "nested()" \in s.a THEN R(DropNested(s0), Err(cx1, "attr-args"))
                              ELSE IF s0.c = <<>> THEN R(DropNested(s0), cx1)
                              ELSE LET n == Walk(cx1, s0.c[1]) IN R(DropNested([s0 EXCEPT !.c = <<n.e>>]), n.x)
                         ELSE R(s0, cx1)
                  r2  == IF s.m = "" THEN VisKids(r1.x, r1.e, sc1)
                         ELSE IF s.m = "Xnv" THEN LET r == VisKids(r1.x, r1.e, sc1) IN R(r.e, Err(r.x, "shape"))
                         ELSE WithKid(r1.x, r1.e, sc1, KidCx(r1.x, s.m, s.s = "ta"), LAMBDA x, y : ExpandKidLet(x, y))
              IN IF sc1.fo THEN r2 ELSE RmAttrs(r2.x, r2.e)
         [] OTHER -> Vis(cx, s, sc, FALSE)

Sc0 == [cl |-> FALSE, fo |-> FALSE]

\* expand the annotation of cx on the expression e: result not yet built
ExpandBody(cx, e, isClos) ==
  LET cnt == CountFn(cx, e)
      cx1 == IF isClos THEN IF cnt.t >= 2 THEN [cx EXCEPT !.mode = "T"]
                            ELSE [cx EXCEPT !.mode = "R", !.cnt = cnt.r]
             ELSE cx
      w   == Walk(cx1, e)
  IN IF w.x.mode = "R" /\ ~w.x.w /\ w.x.nv = 0 /\ w.x.cnt < 2
     THEN [e |-> w.e, x |-> w.x, dummy |-> TRUE]
     ELSE LET v == Vis(w.x, w.e, Sc0, FALSE) IN [e |-> v.e, x |-> v.x, dummy |-> FALSE]

FinishE(r) ==   \* build around an expression
  IF r.dummy THEN R(r.e, r.x)
  ELSE IF MakesEnum(r.x) THEN R(Blk(<<EnumItem(r.x.id), r.e>>), Build(r.x))
  ELSE R(r.e, Build(r.x))

ExpandE(cx, e) ==
  IF e.k = "clos" /\ VisitLast(cx)
  THEN LET r == ExpandBody(cx, e.c[1], TRUE) IN FinishE([r EXCEPT !.e = [e EXCEPT !.c = <<r.e>>]])
  ELSE FinishE(ExpandBody(cx, e, FALSE))

ExpandKidE(cx, e, semi) ==
  LET cx1 == [cx EXCEPT !.nolast = semi]
  IN IF ~cx1.d THEN R(e, cx1) ELSE ExpandE(cx1, e)
ExpandKidLet(cx, s) ==
  IF ~cx.d THEN R(s, cx)
  ELSE IF s.c = <<>> THEN R(s, Err(cx, "uninit"))
  ELSE LET r == ExpandE(cx, s.c[1]) IN R([s EXCEPT !.c = <<r.e>>], r.x)

(***************************************************************************)
(* A bare annotation: only the annotations inside are expanded.            *)
(* It is the visitor of a context that has no alternatives and no mode,    *)
(* except that it neither looks at markers nor at helper attributes.       *)
(***************************************************************************)
RECURSIVE Dum(_, _, _), DumSeq(_, _, _)
DumSeq(cx, s, i) ==
  IF i > Len(s) THEN R(s, cx)
  ELSE LET r == Dum(cx, s[i], FALSE) IN DumSeq(r.x, [s EXCEPT ![i] = r.e], i + 1)
DumKids(cx, e) == IF e.k \in {"mac", "item", "enum"} THEN R(e, cx)
                  ELSE LET r == DumSeq(cx, e.c, 1) IN R([e EXCEPT !.c = r.e], r.x)
DumKid(cx, e, kid, expand(_, _)) ==
  IF kid.bad # "" THEN LET r == DumKids(cx, e) IN R(r.e, Err(r.x, kid.bad))
  ELSE LET cx1 == [cx EXCEPT !.vis = Append(@, kid.x.cur), !.nid = @ + 1]
           r == DumKids(cx1, e)
           k == expand(kid.x, r.e)
       IN R(k.e, [r.x EXCEPT !.vis = cx.vis, !.errs = @ \o k.x.errs])
Dum(cx, e, semi) ==
  IF HasErr(cx) THEN R(e, cx)
  ELSE CASE e.k = "semi" -> LET r == Dum(cx, e.c[1], TRUE) IN R([e EXCEPT !.c = <<r.e>>], r.x)
         [] e.m = "" -> DumKids(cx, e)
         [] e.m = "Xnv" \/ (e.m = "E" /\ e.k # "let") -> LET r == DumKids(cx, [e EXCEPT !.m = ""]) IN R(r.e, Err(r.x, "shape"))
         [] e.k = "let" -> DumKid([cx EXCEPT !.kid = TRUE], [e EXCEPT !.m = ""], KidCx(cx, e.m, e.s = "ta"),
                                  LAMBDA x, y : ExpandKidLet(x, y))
         [] OTHER -> DumKid([cx EXCEPT !.kid = TRUE], [e EXCEPT !.m = ""], KidCx(cx, e.m, FALSE),
                            LAMBDA x, y : ExpandKidE(x, y, semi))

(***************************************************************************)
(* Function level.  f: [k "fn", s return form, m annotation, c <<block>>]. *)
(*  s = "impl"  -> impl Trait        "res" -> Result<T, impl Trait>        *)
(*      "resn"  a Result<T, impl Trait> that is not written as such        *)
(*      "opt"/"plain"/"unit"         anything else                         *)
(* ta: the type_analysis feature adds the traits of the return type.       *)
(* The passes are separate operators: AutoEnumMC makes each one an action. *)
(***************************************************************************)
FnCx(f, ta) == NewCx("0", f.m, TRUE, <<Ann(f.m).mk>>, Ann(f.m).d \/ (ta /\ f.s \in {"impl", "res", "resn"}))

PassCount(cx, f) ==
  LET cnt == CountSeq(cx, f.c[1].c, 1)
  IN IF f.s = "impl" THEN [cx EXCEPT !.mode = "R", !.cnt = cnt.r]
     ELSE IF f.s = "res" /\ cnt.t >= 2 THEN [cx EXCEPT !.mode = "T"]
     ELSE cx
PassWalk(cx, b) ==
  IF b.c = <<>> THEN R(b, Err(cx, "emptyfn"))
  ELSE IF LastOf(b.c).k \in StmtKinds THEN R(b, cx)
  ELSE LET r == Walk(cx, LastOf(b.c)) IN R([b EXCEPT !.c = SetLast(@, r.e)], r.x)
FallsBack(cx) == cx.mode = "R" /\ ~cx.w /\ cx.nv = 0 /\ cx.cnt < 2
PassVisit(cx, b) == LET r == VisSeq(cx, b.c, 1, Sc0) IN R([b EXCEPT !.c = r.e], r.x)
PassBuild(cx, b) ==
  IF MakesEnum(cx) THEN R([b EXCEPT !.c = <<EnumItem(cx.id)>> \o @], Build(cx)) ELSE R(b, Build(cx))
PassDummy(cx, b) == LET r == DumSeq(cx, b.c, 1) IN R([b EXCEPT !.c = r.e], r.x)

\* Without an annotation on the function the annotations inside are roots,
\* expanded one after the other by the compiler.
\* (Marker and macro arguments are opaque to an expansion: annotations in
\* them are left for the compiler, too.)
RECURSIVE Roots(_, _), RootsSeq(_, _, _)
RootCx(m, n, ta) == LET an == Ann(m) IN NewCx(ToString(n), m, TRUE, <<an.mk>>, an.d \/ ta)
RootsSeq(s, i, n) ==
  IF i > Len(s) THEN [e |-> s, errs |-> <<>>, n |-> n]
  ELSE LET r == Roots(s[i], n)
           t == RootsSeq([s EXCEPT ![i] = r.e], i + 1, r.n)
       IN [e |-> t.e, errs |-> r.errs \o t.errs, n |-> t.n]
RootsKids(e, n) == LET r == RootsSeq(e.c, 1, n) IN [e |-> [e EXCEPT !.c = r.e], errs |-> r.errs, n |-> r.n]
RootDo(e, n, semi) ==
  LET an == Ann(e.m)
      e0 == [e EXCEPT !.m = ""]
      cx == RootCx(e.m, n, e.k = "let" /\ e.s = "ta")
      r  == IF an.bad # "" THEN R(e0, Err(cx, an.bad))
            ELSE IF e.k = "let"
            THEN IF ~cx.d THEN Dum(cx, e0, FALSE) ELSE ExpandKidLet(cx, e0)
            ELSE LET c1 == [cx EXCEPT !.nolast = semi] IN
                 IF ~c1.d THEN Dum(c1, e0, FALSE) ELSE ExpandE(c1, e0)
      more == IF r.x.errs = <<>> THEN Roots(r.e, n + 1) ELSE [e |-> r.e, errs |-> <<>>, n |-> n + 1]
  IN [more EXCEPT !.errs = r.x.errs \o @]
Roots(e, n) ==
  CASE e.k = "item" /\ e.m # "" -> [e |-> e, n |-> n + 1, errs |-> <<IF Ann(e.m).bad # "" THEN Ann(e.m).bad ELSE "item">>]
    \* rustc drops the semicolon of a statement that it hands to an attribute itself ("U": the value must be `()`)
    [] e.k = "semi" /\ e.c[1].m # "" -> LET r == RootDo(e.c[1], n, TRUE) IN [r EXCEPT !.e = [e EXCEPT !.c = <<r.e>>, !.s = "U"]]
    [] e.m # "" -> RootDo(e, n, FALSE)
    [] e.k \in {"item", "enum", "mac"} -> [e |-> e, errs |-> <<>>, n |-> n]
    [] OTHER -> RootsKids(e, n)

(***************************************************************************)
(* Types of the expanded program.                                          *)
(* A type is [h, ok, er, r]: head; for Result its sides; for closures and  *)
(* futures (h = "C"/"A") r is the result's head.  "!" never, "~" open.     *)
(***************************************************************************)
T(h)        == [h |-> h, ok |-> "", er |-> "", r |-> ""]
TRes(o, e)  == [h |-> "R", ok |-> o, er |-> e, r |-> ""]
TOpt(o)     == [h |-> "O", ok |-> o, er |-> "", r |-> ""]
TClos(k, t) == [h |-> k, ok |-> t.ok, er |-> t.er, r |-> t.h]
Never == T("!")
Bad   == T("X")
Inside(h) == IF h = "RR" THEN TRes("L4", "E3") ELSE T(h)     \* the type inside a Result
Uni(a, b) == IF a = "~" \/ a = b THEN b ELSE IF b = "~" THEN a ELSE "X"
Join(a, b) ==
  IF a.h = "!" THEN b ELSE IF b.h = "!" THEN a
  ELSE IF a.h # b.h \/ a.r # b.r THEN Bad
  ELSE LET o == Uni(a.ok, b.ok) e == Uni(a.er, b.er)
       IN IF o = "X" \/ e = "X" THEN Bad ELSE [a EXCEPT !.ok = o, !.er = e]
RECURSIVE JoinAll(_, _)
JoinAll(S, acc) == IF S = {} THEN acc ELSE LET x == CHOOSE x \in S : TRUE IN JoinAll(S \ {x}, Join(acc, x))

\* result of typing: t the type; br breaks {<<label, type>>}; re returns;
\* q error heads of `?`; ok well formed so far; wv {<<id, idx, head>>} what the
\* alternatives hold; sv the types of observed values;
\* dv diverges
TR(t)  == [t |-> t, br |-> {}, re |-> {}, q |-> {}, ok |-> TRUE, wv |-> {}, sv |-> {}, dv |-> t.h = "!"]
Mrg(a, b, t) == [t |-> t, br |-> a.br \cup b.br, re |-> a.re \cup b.re, q |-> a.q \cup b.q,
                 ok |-> a.ok /\ b.ok, wv |-> a.wv \cup b.wv, sv |-> a.sv \cup b.sv, dv |-> a.dv \/ b.dv]
Is(t, hs) == t.h \in hs \cup {"!"}

RECURSIVE Ty(_, _), TySeq(_, _, _, _), TyArms(_, _, _, _)
\* code executed on the way to a decision, before what acc stands for
TyHead(h, env, acc) == LET r == Ty(h, env) IN [Mrg(r, acc, acc.t) EXCEPT !.ok = @ /\ Is(r.t, {"()"}), !.dv = acc.dv]
TyArms(s, i, env, acc) ==
  IF i > Len(s) THEN acc ELSE LET r == Ty(LastOf(s[i].c), env) IN
       IF Len(s[i].c) = 1 THEN TyArms(s, i + 1, env, Mrg(acc, r, Join(acc.t, r.t)))
       ELSE TyArms(s, i + 1, env, Mrg(TyHead(s[i].c[1], env, acc), r, Join(acc.t, r.t)))
\* statements from i on, with variable types env; acc accumulates
TySeq(s, i, env, acc) ==
  IF i > Len(s) THEN [acc EXCEPT !.t = IF acc.dv THEN Never ELSE T("()")]
  ELSE LET e == s[i] IN
    CASE e.k \in {"item", "enum"} -> TySeq(s, i + 1, env, acc)
      [] e.k = "lelse" -> LET r == Ty(e.c[1], env) m == Mrg(acc, r, acc.t)
                          IN TySeq(s, i + 1, env, [m EXCEPT !.dv = acc.dv, !.ok = @ /\ r.t.h = "!" /\ r.dv])
      [] e.k = "semi" -> LET r == Ty(e.c[1], env) m == Mrg(acc, r, acc.t)
                         IN TySeq(s, i + 1, env, [m EXCEPT !.ok = @ /\ (e.s = "U" => Is(r.t, {"()"}))])
      [] e.k = "let"  ->
           IF e.c = <<>> THEN TySeq(s, i + 1, env, [acc EXCEPT !.ok = FALSE])
           ELSE LET r == Ty(e.c[1], env) IN TySeq(s, i + 1, (e.n :> r.t) @@ env, Mrg(acc, r, acc.t))
      [] i = Len(s)   -> LET r == Ty(e, env) m == Mrg(acc, r, r.t)
                         IN IF acc.dv /\ r.t.h = "()" THEN [m EXCEPT !.t = Never] ELSE m
      [] OTHER -> LET r == Ty(e, env) m == Mrg(acc, r, acc.t)
                  IN TySeq(s, i + 1, env, [m EXCEPT !.ok = @ /\ Is(r.t, {"()"})])
TyScope(r, t) == [r EXCEPT !.t = t, !.re = {}, !.q = {}, !.br = {}, !.dv = FALSE]
QType(r) == { TRes("~", x) : x \in r.q }
\* the type of a closure/async/function body from its tail, returns and `?`
BodyT(r) == JoinAll(r.re \cup QType(r), r.t)
BodyOk(r) == r.ok /\ r.br = {} /\ BodyT(r).h # "X"
Ty(e, env) ==
  CASE e.k = "leaf"  -> TR(T("L" \o ToString(e.n)))
    [] e.k = "unit"  -> TR(T("()"))
    [] e.k = "eleaf" -> TR(T("E" \o ToString(e.n)))
    [] e.k = "errvar" -> TR(T("L0"))
    [] e.k = "iter"  -> TR(T("I"))
    [] e.k = "die"   -> TR(Never)
    [] e.k = "icall" -> TR(T(IF e.s = "nested" THEN "UI" ELSE "L9"))
    [] e.k = "var"   -> IF e.n \in DOMAIN env THEN TR(env[e.n]) ELSE [TR(Bad) EXCEPT !.ok = FALSE]
    [] e.k = "none"  -> TR(TOpt("~"))
    [] e.k = "fal"   -> TR(TRes("L" \o ToString(e.n), "E" \o ToString(e.n)))
    [] e.k = "falfal" -> TR(TRes("RR", "E4"))
    [] e.k = "idf"   -> LET r == Ty(e.c[1], env) IN [r EXCEPT !.ok = @ /\ r.t.h # "!"]
    [] e.k = "errc"  -> TR(TRes("~", "E" \o ToString(e.n)))
    [] e.k = "okc"   -> LET r == Ty(e.c[1], env) IN [r EXCEPT !.t = TRes(r.t.h, "~")]
    [] e.k = "somec" -> LET r == Ty(e.c[1], env) IN [r EXCEPT !.t = TOpt(r.t.h)]
    [] e.k = "errw"  -> LET r == Ty(e.c[1], env) IN [r EXCEPT !.t = TRes("~", r.t.h)]
    [] e.k = "wrap"  -> LET r == Ty(e.c[1], env) h == IF r.t.h = "!" THEN "()" ELSE r.t.h
                            u == "U" \o e.s
                        IN [r EXCEPT !.t = T(u), !.wv = @ \cup {<<e.s, e.n, h>>}, !.dv = FALSE,
                                     !.ok = @ /\ h # u /\ h \notin {"R", "O", "C", "A", "X"}]
    [] e.k \in {"paren"} -> Ty(e.c[1], env)
    [] e.k = "meth"  -> LET r == Ty(e.c[1], env) IN [r EXCEPT !.ok = @ /\ r.t.h # "!"]
    [] e.k = "see"   -> LET r == Ty(e.c[1], env)
                        IN [r EXCEPT !.t = T("()"), !.sv = @ \cup {r.t}, !.ok = @ /\ r.t.h \notin {"C", "A", "I", "X", "!"}]
    [] e.k = "block" -> LET r == TySeq(e.c, 1, env, TR(T("()")))
                        IN IF e.s = "" THEN r
                           ELSE LET mine == {b \in r.br : b[1] = e.s}
                                    t == JoinAll({b[2] : b \in mine}, r.t)
                                IN [r EXCEPT !.t = t, !.br = @ \ mine, !.ok = @ /\ t.h # "X",
                                             !.dv = @ /\ mine = {}]
    [] e.k = "unsafe" -> TySeq(e.c, 1, env, TR(T("()")))
    [] e.k = "if" ->
         LET i == 1 + e.n
             a == Ty(e.c[i], env)
             x == IF Len(e.c) = i
                  THEN [a EXCEPT !.t = T("()"), !.ok = @ /\ Is(a.t, {"()"}), !.dv = FALSE]
                  ELSE LET b == Ty(e.c[i + 1], env) t == Join(a.t, b.t)
                       IN [Mrg(a, b, t) EXCEPT !.ok = @ /\ t.h # "X", !.dv = t.h = "!"]
         IN IF e.n = 1 THEN TyHead(e.c[1], env, x) ELSE x
    [] e.k = "match" ->
         LET r == TyArms(e.c, 1 + e.n, env, TR(Never))
             x == [r EXCEPT !.ok = @ /\ r.t.h # "X", !.dv = r.t.h = "!"]
         IN IF e.n = 1 THEN TyHead(e.c[1], env, x) ELSE x
    [] e.k = "loop" ->
         LET r == Ty(e.c[1], env)
             mine == {b \in r.br : b[1] = "" \/ b[1] = e.s}
             t == JoinAll({b[2] : b \in mine}, Never)
         IN [r EXCEPT !.t = t, !.br = @ \ mine, !.dv = mine = {},
                      !.ok = @ /\ Is(r.t, {"()"}) /\ t.h # "X"]
    [] e.k \in {"while", "for"} ->
         LET h == IF e.k = "for" THEN Ty(e.c[1], env) ELSE TR(T("I"))
             r == Ty(LastOf(e.c), env)
             mine == {b \in r.br : b[1] = "" \/ b[1] = e.s}
             r0 == [r EXCEPT !.br = @ \ mine]
             r1 == IF e.k = "while" /\ e.n = 1 THEN TyHead(e.c[1], env, r0) ELSE r0
         IN [Mrg(h, r1, T("()")) EXCEPT !.dv = h.dv,
               !.ok = @ /\ Is(r.t, {"()"}) /\ Is(h.t, {"I"}) /\ \A b \in mine : Is(b[2], {"()"})]
    [] e.k = "break" ->
         LET r == IF e.c = <<>> THEN TR(T("()")) ELSE Ty(e.c[1], env)
         IN [r EXCEPT !.t = Never, !.dv = TRUE, !.br = @ \cup {<<e.s, r.t>>}]
    [] e.k = "cont" -> TR(Never)
    [] e.k = "ret"  ->
         LET r == IF e.c = <<>> THEN TR(T("()")) ELSE Ty(e.c[1], env)
         IN [r EXCEPT !.t = Never, !.dv = TRUE, !.re = @ \cup {r.t}]
    [] e.k = "mac"  -> IF e.s \in DivMacros THEN TR(Never) ELSE IF e.s = "val" THEN TR(T("L" \o ToString(e.n))) ELSE [TR(Bad) EXCEPT !.ok = FALSE]
    [] e.k = "try"  ->
         LET r == Ty(e.c[1], env) IN
         IF r.t.h = "O" THEN [r EXCEPT !.t = IF r.t.ok = "~" THEN Never ELSE T(r.t.ok), !.re = @ \cup {TOpt("~")}]
         ELSE [r EXCEPT !.t = IF r.t.ok = "~" THEN Never ELSE Inside(r.t.ok), !.q = @ \cup {r.t.er}, !.ok = @ /\ r.t.h = "R"]
    [] e.k = "trym" ->
         LET r == Ty(e.c[1], env)
             w == e.c[2]
         IN [r EXCEPT !.t = IF r.t.ok = "~" THEN Never ELSE Inside(r.t.ok),
                      !.re = @ \cup {TRes("~", "U" \o w.s)},
                      !.wv = @ \cup {<<w.s, w.n, r.t.er>>}, !.ok = @ /\ r.t.h = "R"]
    [] e.k = "clos" -> LET r == Ty(e.c[1], env) b == BodyT(r)
                       IN [TyScope(r, TClos("C", b)) EXCEPT !.ok = BodyOk(r)]
    [] e.k = "async" -> LET r == Ty(e.c[1], env) b == BodyT(r)
                        IN [TyScope(r, TClos("A", b)) EXCEPT !.ok = BodyOk(r)]
    [] e.k = "tryb" -> LET r == Ty(e.c[1], env)
                       IN [TyScope(r, TRes("L6", "E5")) EXCEPT !.ok = @ /\ r.t.h = "L6" /\ r.q \subseteq {"E5"} /\ r.re = {} /\ r.br = {}]
    [] e.k \in {"call", "bo"} ->
         LET r == Ty(e.c[1], env) IN
         [r EXCEPT !.t = [h |-> r.t.r, ok |-> r.t.ok, er |-> r.t.er, r |-> ""], !.dv = r.t.r = "!",
                   !.ok = @ /\ r.t.h = (IF e.k = "call" THEN "C" ELSE "A")]
    [] OTHER -> [TR(Bad) EXCEPT !.ok = FALSE]

\* whole function: consistent variants, agreeing exits, an acceptable result
RetOk(form, t) ==
  CASE form = "impl" -> t.h \notin {"X", "C", "A", "I", "R", "O", "!"}
    [] form \in {"res", "resn"} -> t.h = "R" /\ t.ok \in {"L0", "~"} /\ t.er \notin {"X", "~"}
    [] form = "resE1" -> t.h = "R" /\ t.ok \in {"L0", "~"} /\ t.er \in {"E1", "~"}
    [] form = "opt"  -> t.h = "O" /\ t.ok \in {"~", "L0"}
    [] form = "l0"   -> t.h \in {"L0", "!"}
    [] form = "unit" -> t.h \in {"()", "!"}
    [] OTHER -> FALSE
TyInfo(b) == LET r == Ty(b, <<>>) IN [t |-> BodyT(r), wv |-> r.wv, sv |-> r.sv]
TyFn(form, b) ==
  LET r == Ty(b, <<>>)
      t == BodyT(r)
  IN /\ BodyOk(r)
     /\ RetOk(form, t)
     /\ \A x, y \in r.wv : (x[1] = y[1] /\ x[2] = y[2]) => x[3] = y[3]

(***************************************************************************)
(* Evaluation, common to the source and the expanded program.              *)
(* Markers mean their argument and helper attributes mean nothing, which   *)
(* is the meaning the user sees in the source.                             *)
(* st: b remaining decisions, e events, f loop fuel, ar the arity asked.   *)
(* A value: t kind ("p" plain, "ok", "er", "so", "no", "c" closure),       *)
(* v its Debug text, w the wrappers around it (outermost first), b body,   *)
(* g environment.                                                          *)
(***************************************************************************)
V(t, v)      == [t |-> t, v |-> v, w |-> <<>>, b |-> UnitE, g |-> <<>>]
Out(o, v, l, st) == [o |-> o, v |-> v, l |-> l, st |-> st]
Val(v, st)   == Out("val", v, "", st)
UnitV        == V("p", "()")
Ev(st, x)    == [st EXCEPT !.e = Append(@, x)]
Ask(st, n)   == Out("more", UnitV, "", [st EXCEPT !.ar = n])
Unwrap(t) == CASE t = "oe" -> "er" [] t = "oo" -> "ok" [] OTHER -> "p"      \* the kind of what a success holds
Show(v) == IF v.t = "ok" THEN "Ok(" \o v.v \o ")" ELSE IF v.t = "er" THEN "Err(" \o v.v \o ")"
           ELSE IF v.t = "so" THEN "Some(" \o v.v \o ")" ELSE IF v.t = "no" THEN "None" ELSE v.v

RECURSIVE Eval(_, _, _), EvalSeq(_, _, _, _), Iter(_, _, _, _)
EvalSeq(s, i, g, st) ==
  IF i > Len(s) THEN Val(UnitV, st)
  ELSE LET e == s[i] IN
    CASE e.k \in {"item", "enum"} -> EvalSeq(s, i + 1, g, st)
      [] e.k = "let"  ->
           LET r == Eval(e.c[1], g, st) IN
           IF r.o # "val" THEN r ELSE EvalSeq(s, i + 1, (e.n :> r.v) @@ g, r.st)
      [] e.k = "lelse" ->
           IF st.b = <<>> THEN Ask(st, 2)
           ELSE LET c == Head(st.b) st1 == Ev([st EXCEPT !.b = Tail(@)], "b" \o ToString(c)) IN
                IF c = 1 THEN EvalSeq(s, i + 1, g, st1) ELSE Eval(e.c[1], g, st1)
      [] e.k = "semi" ->
           LET r == Eval(e.c[1], g, st) IN IF r.o # "val" THEN r ELSE EvalSeq(s, i + 1, g, r.st)
      [] i = Len(s) -> Eval(e, g, st)
      [] OTHER -> LET r == Eval(e, g, st) IN IF r.o # "val" THEN r ELSE EvalSeq(s, i + 1, g, r.st)

\* kind of loop, remaining `for` iterations in j
Iter(e, j, g, st0) ==
  LET hd == IF e.k = "while" /\ e.n = 1 THEN Eval(e.c[1], g, st0) ELSE Val(UnitV, st0)
      st == hd.st
  IN
  IF hd.o # "val" THEN hd
  ELSE IF e.k = "while" /\ st.b = <<>> THEN Ask(st, 2)
  ELSE IF e.k = "while" /\ Head(st.b) = 0 THEN Val(UnitV, Ev([st EXCEPT !.b = Tail(@)], "b0"))
  ELSE IF e.k = "for" /\ j = 0 THEN Val(UnitV, st)
  ELSE LET st1 == IF e.k = "while" THEN Ev([st EXCEPT !.b = Tail(@)], "b1") ELSE st IN
       IF st1.f = 0 THEN Out("fuel", UnitV, "", st1)
       ELSE LET r == Eval(LastOf(e.c), g, Ev([st1 EXCEPT !.f = @ - 1], "t")) IN
            CASE r.o = "val" -> Iter(e, j - 1, g, r.st)
              [] r.o = "cont" /\ r.l \in {"", e.s} -> Iter(e, j - 1, g, r.st)
              [] r.o = "brk" /\ r.l \in {"", e.s} -> Val(r.v, r.st)
              [] OTHER -> r

Decide(e, g, st) ==      \* if and match, after their head
  LET n == IF e.k = "if" THEN 2 ELSE Len(e.c) - e.n IN
  IF st.b = <<>> THEN Ask(st, n)
  ELSE LET c == Head(st.b)
           st1 == Ev([st EXCEPT !.b = Tail(@)], (IF e.k = "if" THEN "b" ELSE "m") \o ToString(c))
       IN IF e.k = "if"
          THEN IF c = 1 THEN Eval(e.c[1 + e.n], g, st1)
               ELSE IF Len(e.c) = 2 + e.n THEN Eval(e.c[2 + e.n], g, st1) ELSE Val(UnitV, st1)
          ELSE LET a == e.c[c + 1 + e.n]
                   gd == IF Len(a.c) = 2 THEN Eval(a.c[1], g, st1) ELSE Val(UnitV, st1)
               IN IF gd.o # "val" THEN gd ELSE Eval(LastOf(a.c), g, gd.st)

Body(r) == IF r.o = "ret" THEN Val(r.v, r.st) ELSE r   \* leaving a function-like body

Eval(e, g, st) ==
  CASE e.k = "leaf"  -> Val(V("p", "L" \o ToString(e.n)), Ev(st, "L" \o ToString(e.n)))
    [] e.k = "unit"  -> Val(UnitV, st)
    [] e.k = "eleaf" -> Val(V("p", "E" \o ToString(e.n)), Ev(st, "E" \o ToString(e.n)))
    [] e.k = "iter"  -> Val(V("p", "I"), Ev(st, "I"))
    [] e.k = "var"   -> Val(g[e.n], st)
    [] e.k = "errvar" -> Val(g[0], st)
    [] e.k = "none"  -> Val(V("no", ""), st)
    [] e.k = "die"   -> Out("panic", UnitV, "", Ev(st, "die"))
    [] e.k = "icall" ->
         IF e.s # "nested" THEN Val(V("p", "L9"), Ev(st, "L9"))
         ELSE IF st.b = <<>> THEN Ask(st, 2)
         ELSE LET c == Head(st.b) x == IF c = 1 THEN "L8" ELSE "L9"
              IN Val(V("p", x), Ev(Ev([st EXCEPT !.b = Tail(@)], "b" \o ToString(c)), x))
    [] e.k = "errc"  -> Val(V("er", "E" \o ToString(e.n)), Ev(st, "E" \o ToString(e.n)))
    [] e.k = "fal"   ->
         IF st.b = <<>> THEN Ask(st, 2)
         ELSE IF Head(st.b) = 1 THEN Val(V("ok", "L" \o ToString(e.n)), Ev([st EXCEPT !.b = Tail(@)], "f" \o ToString(e.n) \o "+"))
         ELSE Val(V("er", "E" \o ToString(e.n)), Ev([st EXCEPT !.b = Tail(@)], "f" \o ToString(e.n) \o "-"))
    [] e.k = "falfal" ->
         IF st.b = <<>> THEN Ask(st, 3)
         ELSE LET c == Head(st.b)
              IN Val(CASE c = 0 -> V("er", "E4") [] c = 1 -> V("oe", "E3") [] OTHER -> V("oo", "L4"), Ev([st EXCEPT !.b = Tail(@)], "F" \o ToString(c)))
    [] e.k = "idf"   -> Eval(e.c[1], g, st)
    [] e.k \in {"okc", "somec", "errw"} ->
         LET r == Eval(e.c[1], g, st) IN
         IF r.o # "val" THEN r
         ELSE [r EXCEPT !.v.t = IF e.k = "okc" THEN "ok" ELSE IF e.k = "somec" THEN "so" ELSE "er"]
    [] e.k = "wrap"  -> LET r == Eval(e.c[1], g, st) IN
                        IF r.o # "val" THEN r ELSE [r EXCEPT !.v.w = <<<<e.s, e.n>>>> \o @]
    [] e.k = "paren" -> Eval(e.c[1], g, st)
    [] e.k = "meth"  -> LET r == Eval(e.c[1], g, st) IN IF r.o # "val" THEN r ELSE Val(r.v, Ev(r.st, "i"))
    [] e.k = "see"   -> LET r == Eval(e.c[1], g, st) IN
                        IF r.o # "val" THEN r ELSE Val(UnitV, Ev(r.st, "s" \o Show(r.v)))
    [] e.k = "mac"   -> IF e.s \in DivMacros THEN Out("panic", UnitV, "", st)
                        ELSE IF e.s = "val" THEN Val(V("p", "L" \o ToString(e.n)), Ev(st, "L" \o ToString(e.n)))
                        ELSE Eval(e.c[1], g, st)      \* marker!(x) means x
    [] e.k = "block" -> LET r == EvalSeq(e.c, 1, g, st) IN
                        IF e.s # "" /\ r.o = "brk" /\ r.l = e.s THEN Val(r.v, r.st) ELSE r
    [] e.k = "unsafe" -> EvalSeq(e.c, 1, g, st)
    [] e.k \in {"if", "match"} ->
         LET hd == IF e.n = 1 THEN Eval(e.c[1], g, st) ELSE Val(UnitV, st) IN
         IF hd.o # "val" THEN hd ELSE Decide(e, g, hd.st)
    [] e.k = "loop"  -> Iter(e, 0, g, st)
    [] e.k = "while" -> Iter(e, 0, g, st)
    [] e.k = "for"   -> LET r == Eval(e.c[1], g, st) IN IF r.o # "val" THEN r ELSE Iter(e, 2, g, r.st)
    [] e.k = "break" -> IF e.c = <<>> THEN Out("brk", UnitV, e.s, st)
                        ELSE LET r == Eval(e.c[1], g, st) IN
                             IF r.o # "val" THEN r ELSE Out("brk", r.v, e.s, r.st)
    [] e.k = "cont"  -> Out("cont", UnitV, e.s, st)
    [] e.k = "ret"   -> IF e.c = <<>> THEN Out("ret", UnitV, "", st)
                        ELSE LET r == Eval(e.c[1], g, st) IN
                             IF r.o # "val" THEN r ELSE Out("ret", r.v, "", r.st)
    [] e.k = "try"   -> LET r == Eval(e.c[1], g, st) IN
                        IF r.o # "val" THEN r
                        ELSE IF r.v.t \in {"ok", "oe", "oo"} THEN Val([r.v EXCEPT !.t = Unwrap(@)], r.st)
                        ELSE IF r.v.t = "so" THEN Val([r.v EXCEPT !.t = "p"], r.st)
                        ELSE Out("ret", r.v, "", r.st)
    [] e.k = "trym"  -> LET r == Eval(e.c[1], g, st) IN
                        IF r.o # "val" THEN r
                        ELSE IF r.v.t \in {"ok", "oe", "oo"} THEN Val([r.v EXCEPT !.t = Unwrap(@)], r.st)
                        ELSE LET w == Eval(e.c[2], (0 :> [r.v EXCEPT !.t = "p"]) @@ g, r.st)
                             IN Out("ret", [w.v EXCEPT !.t = "er"], "", w.st)
    [] e.k \in {"clos", "async"} -> Val([V("c", "") EXCEPT !.b = e.c[1], !.g = <<g>>], st)
    [] e.k = "tryb" -> LET r == Eval(e.c[1], g, st) IN
                       IF r.o = "val" THEN [r EXCEPT !.v.t = "ok"] ELSE Body(r)
    [] e.k \in {"call", "bo"} ->
         LET r == Eval(e.c[1], g, st) IN
         IF r.o # "val" THEN r ELSE Body(Eval(r.v.b, r.v.g[1], r.st))
    [] OTHER -> Assert(FALSE, <<"Eval", e>>)

Fuel == 3
St0(bits) == [b |-> bits, e |-> <<>>, f |-> Fuel, ar |-> 0]
RunFn(b, bits) == Body(Eval(b, <<>>, St0(bits)))
=============================================================================
