----------------------------- MODULE AutoEnumMC -----------------------------
(***************************************************************************)
(* The state machine around AutoEnum: a user program is derived from a     *)
(* grammar (Grow), the macro processes it pass by pass (CountExits,        *)
(* VisitTail, VisitBody, BuildEnum | Passthrough | ExpandRoots), and then  *)
(* both the source and the expansion are executed under every sequence of  *)
(* environment decisions (Execute).                                        *)
(*                                                                         *)
(* The grammar is typed: a hole carries which exits are legal where it     *)
(* stands and what type each of them expects, so that every derived        *)
(* program is meant to be valid unless a root named r_... was used.   *)
(* A slice selects some of the productions and a bound on the size.        *)
(***************************************************************************)
EXTENDS AutoEnum, Json, CSV, TLCExt, Randomization, SequencesExt

CONSTANTS Slices,    \* sequence of grammar slices, each [on, pool, root, k, bd, loose, acc]:
                     \* enabled productions; productions of which k random ones and one
                     \* random root are enabled as well; number of holes ever created in
                     \* one program; its programs may be invalid; must all be typed
          MaxBits,   \* longest sequence of environment decisions
          Sample,    \* simulation: grow in one random direction instead of all
          TA,        \* the type_analysis feature is on
          OutFile    \* where conformance cases go ("" for none)

VARIABLES sl, on, bd, prog, tot, nxt, d, ph, cx, body, errs, runs
slice == <<sl, on, bd>>
vars == <<slice, prog, tot, nxt, d, ph, cx, body, errs, runs>>

(***************************************************************************)
(* Holes and their environment.  An exit target is [l, t, mk]: its label,  *)
(* the type it expects (0: an alternative of the annotation, n > 0: type   *)
(* n, -1: no value, -2: not available, -3: Result, -4: Option, -5: like 0  *)
(* inside Err) and the marker naming the annotation ("" if none usable).   *)
(***************************************************************************)
Tgt(l, t, mk) == [l |-> l, t |-> t, mk |-> mk]
NoRet == Tgt("", -2, "")
Env0 == [ret |-> NoRet, brk |-> <<>>, x |-> "", q |-> 0, un |-> FALSE, op |-> TRUE]
H(nt, n, g) == [k |-> "H", s |-> nt, n |-> n, a |-> {}, m |-> "", c |-> <<>>, g |-> g]

Foreign(t) == IF t.mk = DEFAULT THEN [t EXCEPT !.mk = ""] ELSE t
Inner(g, mk) ==      \* entering the code of another annotation
  [g EXCEPT !.ret = Foreign(@), !.brk = [i \in 1..Len(@) |-> Foreign(@[i])], !.x = mk, !.op = FALSE]
Opaque(g) ==         \* inside the argument of a marker: nothing of the annotation applies
  LET blind(t) == IF t.t \in {0, -3} THEN [t EXCEPT !.t = -2, !.mk = ""] ELSE [t EXCEPT !.mk = ""]
  IN [g EXCEPT !.ret = blind(@), !.brk = [i \in 1..Len(@) |-> blind(@[i])], !.x = "",
               !.q = IF @ = 1 THEN 0 ELSE @, !.op = TRUE]
InFn(g, ret) ==      \* entering a closure, async block or nested function
  [g EXCEPT !.ret = ret, !.brk = <<>>, !.q = 0, !.un = FALSE]
InLoop(g, l, t, mk) ==
  [g EXCEPT !.brk = Append([i \in 1..Len(@) |-> IF @[i].l = l \/ @[i].l = "" THEN [@[i] EXCEPT !.t = -2] ELSE @[i]],
                           Tgt(l, t, mk)), !.un = TRUE]
InLBlk(g, l, t) ==   \* a labelled block: unlabelled breaks are illegal inside
  [g EXCEPT !.brk = Append([i \in 1..Len(@) |-> IF @[i].l = l \/ @[i].l = "" THEN [@[i] EXCEPT !.t = -2] ELSE @[i]],
                           Tgt(l, t, "")), !.un = FALSE]

HeadOf(g, l) ==      \* the condition of a while loop labelled l: only other labels can be used
  [g EXCEPT !.brk = [i \in 1..Len(@) |-> IF @[i].l = l \/ @[i].l = "" THEN [@[i] EXCEPT !.t = -2] ELSE @[i]], !.un = FALSE]

RECURSIVE HasHole(_), LeftHole(_), Fill(_, _)
HasHole(e) == e.k = "H" \/ \E i \in 1..Len(e.c) : HasHole(e.c[i])
FirstHoley(e) == CHOOSE i \in 1..Len(e.c) : HasHole(e.c[i]) /\ \A j \in 1..(i - 1) : ~HasHole(e.c[j])
LeftHole(e) == IF e.k = "H" THEN e ELSE LeftHole(e.c[FirstHoley(e)])
Fill(e, r) == IF e.k = "H" THEN [r EXCEPT !.a = @ \cup e.a, !.m = IF @ = "" THEN e.m ELSE @]
              ELSE LET i == FirstHoley(e) IN [e EXCEPT !.c[i] = Fill(@, r)]

\* a production: name, replacement, holes created, fresh numbers used
P(nm, r, h, f) == IF nm \in on THEN <<[nm |-> nm, r |-> r, h |-> h, f |-> f]>> ELSE <<>>
PIf(c, nm, r, h, f) == IF c /\ nm \in on THEN <<[nm |-> nm, r |-> r, h |-> h, f |-> f]>> ELSE <<>>
RECURSIVE Cat(_, _)
Cat(f, i) == IF i = 0 THEN <<>> ELSE Cat(f, i - 1) \o f[i]

Fn(form, m, ss) == [k |-> "fn", s |-> form, n |-> 0, a |-> {}, m |-> m, c |-> <<Blk(ss)>>]

\* contexts of the usual annotation positions
GFn(mk)   == [Env0 EXCEPT !.ret = Tgt("", 0, mk), !.x = mk, !.op = FALSE]
GKid(mk)  == [Env0 EXCEPT !.x = mk, !.op = FALSE]
\* a function whose return type is not recognised as Result<T, impl Trait>: `?` stays as it is
GResn     == [Env0 EXCEPT !.ret = Tgt("", -3, "marker"), !.op = FALSE]
GTry      == [Env0 EXCEPT !.ret = Tgt("", -3, "marker"), !.q = 1, !.op = FALSE]

TaLet(n, e, m) == An([Let(n, e) EXCEPT !.s = "ta"], m)
\* programs
ProdP ==
     P("p_fn",    Fn("impl", "D", <<H("T", 0, GFn("marker"))>>), 1, 0)
  \o P("p_fns",   Fn("impl", "D", <<H("S", 0, GFn("marker")), H("T", 0, GFn("marker"))>>), 2, 0)
  \o P("p_fnss",  Fn("impl", "D", <<H("S", 0, GFn("marker")), H("S", 0, GFn("marker")), H("T", 0, GFn("marker"))>>), 3, 0)
  \o P("p_fnm1",  Fn("impl", "Dm1", <<H("S", 0, GFn("m1")), H("T", 0, GFn("m1"))>>), 2, 0)
  \o P("p_let",   Fn("impl", "E", <<An(Let(0, H("X", 0, GKid("marker"))), "D"), Var(0)>>), 1, 0)
  \o P("p_letm1", Fn("impl", "E", <<An(Let(0, H("X", 0, GKid("m1"))), "Dm1"), Var(0)>>), 1, 0)
  \o P("p_expr",  Fn("impl", "E", <<H("Xa", 0, GKid("marker"))>>), 1, 0)
  \o P("p_sexpr", Fn("impl", "E", <<H("S", 0, Env0), H("Xa", 0, GKid("marker"))>>), 2, 0)
  \o P("p_nlet",  Fn("impl", "", <<An(Let(0, H("X", 0, GKid("marker"))), "D"), Var(0)>>), 1, 0)
  \o P("p_nexpr", Fn("impl", "", <<H("Xa", 0, GKid("marker"))>>), 1, 0)
  \o P("p_clos",  Fn("impl", "E", <<An(Let(0, Clos(H("T", 0, InFn(GFn("marker"), Tgt("", 0, "marker"))))), "D"), Call(Var(0))>>), 1, 0)
  \o P("p_closs", Fn("impl", "E", <<An(Let(0, Clos(Blk(<<H("S", 0, GFn("marker")), H("T", 0, GFn("marker"))>>))), "D"), Call(Var(0))>>), 2, 0)
  \o P("p_eclos", Fn("impl", "E", <<Let(0, An(Clos(Blk(<<H("S", 0, GFn("marker")), H("T", 0, GFn("marker"))>>)), "D")), Call(Var(0))>>), 2, 0)
  \o P("p_nclos", Fn("impl", "", <<An(Let(0, Clos(Blk(<<H("S", 0, GFn("marker")), H("T", 0, GFn("marker"))>>))), "D"), Call(Var(0))>>), 2, 0)
  \o P("p_opt",   Fn("opt", "E", <<An(Let(0, H("X", 0, [GKid("marker") EXCEPT !.ret = Tgt("", -4, ""), !.q = 2])), "D"), Semi(See(Var(0))), SomeC(Leaf(0))>>), 1, 0)
  \o P("p_res1",  Fn("resE1", "E", <<An(Let(0, H("X", 0, [GKid("marker") EXCEPT !.ret = Tgt("", -3, ""), !.q = 3])), "D"), Semi(See(Var(0))), OkC(Leaf(0))>>), 1, 0)
  \o P("p_l0",    Fn("l0", "E", <<An(Let(0, H("X", 0, [GKid("marker") EXCEPT !.ret = Tgt("", 0 - 6, "")])), "D"), Semi(See(Var(0))), Leaf(0)>>), 1, 0)
  \o P("p_semi",  Fn("unit", "E", <<Semi(An(Blk(<<Let(0, H("MK", 0, GKid("marker"))), Semi(See(Var(0)))>>), "D"))>>), 1, 0)
  \o P("p_unit",  Fn("unit", "D", <<Let(0, H("MK", 0, GKid("marker"))), Semi(See(Var(0)))>>), 1, 0)
  \o P("p_unitm", Fn("unit", "Dm2", <<Let(0, H("MK", 0, GKid("m2"))), Semi(See(Var(0)))>>), 1, 0)
  \o P("p_fnlet", Fn("impl", "D", <<An(Let(0, H("X", 0, Inner(GFn("marker"), "marker"))), "D"), Semi(See(Var(0))), H("T", 0, GFn("marker"))>>), 2, 0)
  \o P("p_fnlet1", Fn("impl", "D", <<An(Let(0, H("X", 0, Inner(GFn("marker"), "m1"))), "Dm1"), Semi(See(Var(0))), H("T", 0, GFn("marker"))>>), 2, 0)
  \o P("p_fnlet2", Fn("impl", "Dm1", <<An(Let(0, H("X", 0, Inner(GFn("m1"), "marker"))), "D"), Semi(See(Var(0))), H("T", 0, GFn("m1"))>>), 2, 0)
  \o P("p_fnlet3", Fn("impl", "Dm1", <<An(Let(0, H("X", 0, Inner(GFn("m1"), "m2"))), "Dm2"), Semi(See(Var(0))), H("T", 0, GFn("m1"))>>), 2, 0)
  \o P("p_2let",  Fn("impl", "E", <<An(Let(0, H("X", 0, GKid("marker"))), "D"), An(Let(1, H("X", 0, GKid("marker"))), "D"),
                                    Semi(See(Var(0))), Var(1)>>), 2, 0)
  \o P("p_2letm", Fn("impl", "E", <<An(Let(0, H("X", 0, GKid("m1"))), "Dm1"), An(Let(1, H("X", 0, GKid("m1"))), "Dm1"),
                                    Semi(See(Var(0))), Var(1)>>), 2, 0)
  \o P("p_try",   Fn("res", "D", <<H("Q", 0, GTry), H("Q", 0, GTry), H("TT", 0, GTry)>>), 3, 0)
  \o P("p_try2",  Fn("res", "D", <<H("S", 0, GTry), H("QT", 0, GTry)>>), 2, 0)
  \o P("p_resn",  Fn("resn", "D", <<If1(Blk(<<Semi(Ret(<<ErrW(Mac("marker", <<ErrLeaf(1)>>))>>))>>)), H("RN", 0, GResn), H("RN", 0, GResn), OkC(Leaf(0))>>), 2, 0)
  \o P("p_resne", Fn("resn", "D", <<H("RN", 0, GResn), H("RN", 0, GResn), ErrW(Mac("marker", <<ErrLeaf(0)>>))>>), 2, 0)
  \o P("p_tclos", Fn("res", "E", <<An(Let(0, Clos(Blk(<<H("Q", 0, GTry), H("Q", 0, GTry), H("TT", 0, GTry)>>))), "D"), Call(Var(0))>>), 3, 0)
  \o P("p_ntclos", Fn("res", "", <<An(Let(0, Clos(Blk(<<H("Q", 0, GTry), H("Q", 0, GTry), H("TT", 0, GTry)>>))), "D"), Call(Var(0))>>), 3, 0)
  \o P("p_item",  Fn("impl", "D", <<H("I", 0, GFn("marker")), H("S", 0, GFn("marker")), H("T", 0, GFn("marker"))>>), 3, 0)
  \* annotations without traits: the type says which (type_analysis)
  \o P("pt_fn",   Fn("impl", "E", <<H("T", 0, GFn("marker"))>>), 1, 0)
  \o P("pt_fns",  Fn("impl", "E", <<H("S", 0, GFn("marker")), H("T", 0, GFn("marker"))>>), 2, 0)
  \o P("pt_fnm1", Fn("impl", "Em1", <<H("S", 0, GFn("m1")), H("T", 0, GFn("m1"))>>), 2, 0)
  \o P("pt_noop", Fn("impl", "E", <<H("S", 0, Env0), H("S", 0, Env0), Leaf(0)>>), 2, 0)
  \o P("pt_one",  Fn("impl", "E", <<H("S", 0, Env0), Semi(IfE(Blk(<<Semi(Ret(<<Leaf(0)>>))>>), Blk(<<>>))), Leaf(0)>>), 1, 0)
  \o P("pt_let",  Fn("impl", "", <<H("S", 0, Env0), TaLet(0, H("X", 0, GKid("marker")), "E"), Var(0)>>), 2, 0)
  \o P("pt_letr", Fn("l0", "E", <<TaLet(0, H("X", 0, [GKid("marker") EXCEPT !.ret = Tgt("", 0 - 6, "")]), "E"), Semi(See(Var(0))), Leaf(0)>>), 1, 0)
  \o P("pt_letf", Fn("impl", "E", <<TaLet(0, H("X", 0, GKid("marker")), "E"), Var(0)>>), 1, 0)
  \o P("pt_letm", Fn("impl", "E", <<TaLet(0, H("X", 0, GKid("m1")), "Em1"), Var(0)>>), 1, 0)
  \o P("pt_letD", Fn("impl", "", <<TaLet(0, H("X", 0, GKid("marker")), "D"), Var(0)>>), 1, 0)
  \o P("pt_fnlet", Fn("impl", "E", <<TaLet(0, H("X", 0, Inner(GFn("marker"), "marker")), "E"), Semi(See(Var(0))), H("T", 0, GFn("marker"))>>), 2, 0)
  \o P("pt_fnlet1", Fn("impl", "D", <<TaLet(0, H("X", 0, Inner(GFn("marker"), "m1")), "Em1"), Semi(See(Var(0))), H("T", 0, GFn("marker"))>>), 2, 0)
  \o P("pt_unit", Fn("unit", "E", <<TaLet(0, H("X", 0, GKid("marker")), "E"), Semi(See(Var(0)))>>), 1, 0)
  \o P("pt_try",  Fn("res", "E", <<H("Q", 0, GTry), H("Q", 0, GTry), H("TT", 0, GTry)>>), 3, 0)
  \o P("pt_try2", Fn("res", "E", <<H("S", 0, GTry), H("QT", 0, GTry)>>), 2, 0)
  \* programs that the macro must reject (or at least: does not have to accept)
  \o P("r_fn",    Fn("impl", "D", <<H("W", 0, GFn("marker"))>>), 1, 0)
  \o P("r_fns",   Fn("impl", "D", <<H("Z", 0, GFn("marker")), H("W", 0, GFn("marker"))>>), 2, 0)
  \o P("r_fnm1",  Fn("impl", "Dm1", <<H("Z", 0, GFn("m1")), H("W", 0, GFn("m1"))>>), 2, 0)
  \o P("r_let",   Fn("impl", "E", <<H("Z", 0, Env0), An(Let(0, H("W", 0, GKid("marker"))), "D"), Var(0)>>), 2, 0)
  \o P("r_expr",  Fn("impl", "E", <<H("Wa", 0, GKid("marker"))>>), 1, 0)
  \o P("r_semi",  Fn("unit", "E", <<Semi(H("Wa", 0, GKid("marker")))>>), 1, 0)
  \o P("r_nlet",  Fn("impl", "", <<An(Let(0, H("W", 0, GKid("marker"))), "D"), H("Z", 0, Env0), Var(0)>>), 2, 0)
  \o P("r_empty", Fn("unit", "D", <<>>), 0, 0)
  \o P("r_unit",  Fn("unit", "D", <<H("Z", 0, Env0), H("Z", 0, Env0)>>), 2, 0)
  \o P("r_try",   Fn("res", "D", <<H("Z", 0, GTry), OkC(Leaf(0))>>), 1, 0)
  \o P("r_clos",  Fn("impl", "E", <<An(Let(0, Clos(H("W", 0, GFn("marker")))), "D"), Call(Var(0))>>), 1, 0)
  \o P("r_ann",   Fn("impl", "E", <<H("Wx", 0, GKid("marker"))>>), 1, 0)
  \o Cat([i \in 1..18 |->
        P("r_args", Fn("impl", <<"Xdup", "Xsemi", "Xmk", "Xmk0", "E0", "Dmm", "Em1", "Dp", "Xdup2", "Xdup3", "Xmk1", "Xmkp", "Xmks", "Xcom", "Xcc", "Xsp", "Dtc", "Dm1t">>[i],
            <<IfE(Blk(<<Leaf(1)>>), Blk(<<Leaf(2)>>))>>), 0, 0)], 18)
  \o Cat([i \in 1..18 |->
        P("r_largs", Fn("impl", "E",
            <<An(Let(0, IfE(Blk(<<Leaf(1)>>), Blk(<<Leaf(2)>>))), <<"Xdup", "Xsemi", "Xnv", "Xmk", "E0", "Dmm", "Em1", "Dp", "Xdup2", "Xdup3", "Xmk1", "Xmkp", "Xmks", "Xcom", "Xcc", "Xsp", "Dtc", "Dm1t">>[i]), Var(0)>>), 0, 0)], 18)
  \o P("r_dupmk", Fn("impl", "Dm1", <<An(Let(0, H("W", 0, GKid("m1"))), "Dm1"), H("W", 0, GFn("m1"))>>), 2, 0)
  \o P("r_dupmk3", Fn("impl", "Dm1", <<An(Let(0, Blk(<<An(Let(1, H("W", 0, GKid("m1"))), "Dm1"), H("W", 0, GKid("marker"))>>)), "D"), H("W", 0, GFn("m1"))>>), 3, 0)
  \o P("r_dupmk4", Fn("impl", "E", <<An(Let(0, Blk(<<An(Let(1, H("W", 0, GKid("m1"))), "Dm1"), H("W", 0, GKid("m1"))>>)), "Dm1"), Var(0)>>), 2, 0)
  \o Cat([i \in 1..5 |->
        P("r_item", Fn("impl", "", <<H("Z", 0, Env0), An(ItemS("any", <<>>), <<"D", "E", "Em1", "Dp", "Xdup">>[i]), Leaf(0)>>), 1, 0)], 5)
  \o P("r_vals",  Fn("unit", "", <<H("Z", 0, Env0), Semi(An(UMac(1), "D"))>>), 1, 0)
  \o P("r_uninit", Fn("impl", "D", <<An(LetU(0), "D"), H("W", 0, GFn("marker"))>>), 1, 0)

RECURSIVE Chain(_, _, _)
Chain(r, n, e) == IF n = 0 THEN e ELSE IfE(Blk(<<Leaf(r)>>), Chain(r + 1, n - 1, e))     \* if .. else if .. else e

\* a tail position that is walked: its branches are alternatives
ProdX(h) ==
  LET g == h.g  r == nxt IN
     P("x_if",    IfE(Blk(<<H("A", 0, g)>>), Blk(<<H("A", 0, g)>>)), 2, 0)
  \o P("x_ifs",   IfE(Blk(<<H("S", 0, g), H("A", 0, g)>>), Blk(<<H("A", 0, g)>>)), 3, 0)
  \o P("x_ifs2",  IfE(Blk(<<H("A", 0, g)>>), Blk(<<H("S", 0, g), H("A", 0, g)>>)), 3, 0)
  \o P("x_elif",  IfE(Blk(<<H("A", 0, g)>>), IfE(Blk(<<H("A", 0, g)>>), Blk(<<H("A", 0, g)>>))), 3, 0)
  \o P("x_elif4", IfE(Blk(<<H("A", 0, g)>>), IfE(Blk(<<H("A", 0, g)>>), IfE(Blk(<<H("A", 0, g)>>), Blk(<<H("A", 0, g)>>)))), 4, 0)
  \o P("x_match2", MatchE(<<Arm(H("A", 0, g)), Arm(H("A", 0, g))>>), 2, 0)
  \o P("x_match3", MatchE(<<Arm(H("A", 0, g)), Arm(H("A", 0, g)), Arm(H("A", 0, g))>>), 3, 0)
  \o P("x_match4", MatchE(<<Arm(H("A", 0, g)), Arm(H("A", 0, g)), Arm(H("A", 0, g)), Arm(H("A", 0, g))>>), 4, 0)
  \o P("x_match12", MatchE([i \in 1..12 |-> IF i = 12 THEN Arm(H("A", 0, g)) ELSE Arm(Leaf(r + i - 1))]), 1, 11)
  \o P("x_elif11", Chain(r, 11, Blk(<<H("A", 0, g)>>)), 1, 11)
  \o P("x_ifh",   IfHE(Blk(<<H("S", 0, g)>>), Blk(<<H("A", 0, g)>>), Blk(<<H("A", 0, g)>>)), 3, 0)
  \o P("x_elifh", IfE(Blk(<<H("A", 0, g)>>), IfHE(Blk(<<H("S", 0, g)>>), Blk(<<H("A", 0, g)>>), Blk(<<H("A", 0, g)>>))), 4, 0)
  \o P("x_matchh", MatchH(Blk(<<H("S", 0, g)>>), <<Arm(H("A", 0, g)), Arm(H("A", 0, g))>>), 3, 0)
  \o P("x_garm",  MatchE(<<GArm(Blk(<<H("S", 0, g)>>), H("A", 0, g)), Arm(H("A", 0, g))>>), 3, 0)
  \o P("x_blk",   Blk(<<H("X", 0, g)>>), 1, 0)
  \o P("x_sblk",  Blk(<<H("S", 0, g), H("X", 0, g)>>), 2, 0)
  \o P("x_unsafe", Unsafe(<<H("X", 0, g)>>), 1, 0)
  \o P("x_paren", Paren(H("X", 0, g)), 1, 0)
  \o P("x_meth",  Meth(H("X", 0, g)), 1, 0)
  \o P("x_loop",  LoopE("", Blk(<<H("LS", 0, InLoop(g, "", 0, g.x)), H("LZ", 0, InLoop(g, "", 0, g.x))>>)), 2, 0)
  \o P("x_loopa", LoopE("'a", Blk(<<H("LS", 0, InLoop(g, "'a", 0, g.x)), H("LZ", 0, InLoop(g, "'a", 0, g.x))>>)), 2, 0)
  \o P("x_nlet",  Blk(<<At(Let(r, H("X", 0, g)), {"nested"}), Var(r)>>), 1, 1)
  \o P("x_mklet", Blk(<<Let(r, H("MK", 0, g)), Var(r)>>), 1, 1)
\* the same, carrying the annotation itself
AnnX(p) == [p EXCEPT !.r = An(@, "D")]
MapSeq(s, op(_)) == [i \in 1..Len(s) |-> op(s[i])]

\* the tail of a scope whose returns are alternatives
ProdT(h) ==
  LET g == h.g IN
     ProdX([h EXCEPT !.s = "X"])
  \o P("t_ret",   Ret(<<H("V", 0, [g EXCEPT !.q = 0])>>), 1, 0)
  \o PIf(g.x # "", "t_mk", Mac(g.x, <<H("E", nxt, Opaque(g))>>), 1, 1)
  \o P("t_blkret", Blk(<<Semi(Ret(<<H("V", 0, g)>>))>>), 1, 0)

\* the content of a branch
ProdA(h) ==
  LET g == h.g  r == nxt IN
     P("a_leaf",  Leaf(r), 0, 1)
  \o P("a_e",     H("E", r, g), 1, 1)
  \o P("a_d",     H("D", 0, g), 1, 0)
  \o PIf(g.x # "", "a_mk", Mac(g.x, <<H("E", r, Opaque(g))>>), 1, 1)
  \o P("a_unit",  UnitE, 0, 0)
  \o P("a_blk",   Blk(<<H("S", 0, g), H("A", 0, g)>>), 2, 0)
  \o P("a_blk0",  Blk(<<H("A", 0, g)>>), 1, 0)
  \o P("a_try",   H("TRY", 0, g), 1, 0)
  \o P("a_nest",  At(H("N", 0, g), {"nested"}), 1, 0)
  \o P("a_nlet",  Blk(<<At(Let(r, H("X", 0, g)), {"nested"}), Var(r)>>), 1, 1)
  \o P("a_nmeth", Meth(Paren(At(H("N", 0, g), {"nested"}))), 1, 0)
  \o P("a_nblk",  Blk(<<H("S", 0, g), At(H("N", 0, g), {"nested"})>>), 2, 0)
  \o P("a_npar",  Paren(At(H("N", 0, g), {"nested"})), 1, 0)
  \o P("a_nlet2", Blk(<<Let(r + 1, Blk(<<At(Let(r, H("X", 0, g)), {"nested"}), Var(r)>>)), Var(r + 1)>>), 1, 2)
  \o P("a_nlet3", Blk(<<Let(r, Paren(At(H("N", 0, g), {"nested"}))), Var(r)>>), 1, 1)
  \o P("a_nidf",  IdF(At(H("N", 0, g), {"nested"})), 1, 0)
  \o P("a_nidf2", Blk(<<Let(r, Meth(IdF(Blk(<<H("S", 0, g), At(H("N", 0, g), {"nested"})>>)))), IdF(Var(r))>>), 2, 1)
  \o P("a_nuns",  Unsafe(<<H("S", 0, g), At(H("N", 0, g), {"nested"})>>), 2, 0)
  \o P("a_nloop", LoopE("", Blk(<<Semi(Brk("", <<Paren(At(H("N", 0, InLoop(g, "", -2, "")), {"nested"}))>>))>>)), 1, 0)
  \o P("a_nlblk", LBlk("'b", <<At(H("N", 0, InLBlk(g, "'b", -2)), {"nested"})>>), 1, 0)
  \o P("a_nif",   Blk(<<Let(r, IfE(Blk(<<At(H("N", 0, g), {"nested"})>>), Blk(<<At(H("N", 0, g), {"nested"})>>))), Var(r)>>), 2, 1)
  \o P("a_nmatch", Paren(MatchE(<<Arm(At(H("N", 0, g), {"nested"})), At(Arm(H("N", 0, g)), {"nested"})>>)), 2, 0)
  \o P("a_nbo",   Bo(Async(Blk(<<At(H("N", 0, InFn(g, NoRet)), {"nested"})>>))), 1, 0)
  \o P("a_ncall", Call(Paren(Clos(At(H("N", 0, InFn(g, NoRet)), {"nested"})))), 1, 0)
  \o P("a_kid",   Blk(<<An(Let(r, H("X", 0, Inner(g, "marker"))), "D"), Var(r)>>), 1, 1)
  \o P("a_kidm2", Blk(<<An(Let(r, H("X", 0, Inner(g, "m2"))), "Dm2"), Semi(See(Var(r))), H("A", 0, g)>>), 2, 1)
  \o P("a_never", At(H("ND", 0, g), {"never"}), 1, 0)

\* marked #[nested]: any walked form
ProdN(h) == ProdX([h EXCEPT !.s = "X"])

\* a value of type n, not annotated
ProdE(h) ==
  LET g == h.g  n == h.n  r == nxt IN
     P("e_leaf",  Leaf(n), 0, 0)
  \o P("e_if",    IfE(Blk(<<H("E", n, g)>>), Blk(<<H("E", n, g)>>)), 2, 0)
  \o P("e_match", MatchE(<<Arm(H("E", n, g)), Arm(H("E", n, g))>>), 2, 0)
  \o P("e_ifd",   IfE(Blk(<<H("E", n, g)>>), Blk(<<H("D", 0, g)>>)), 2, 0)
  \o P("e_matchd", MatchE(<<Arm(H("D", 0, g)), Arm(H("E", n, g))>>), 2, 0)
  \o P("e_ifh",   IfHE(Blk(<<H("S", 0, g)>>), Blk(<<H("E", n, g)>>), Blk(<<H("E", n, g)>>)), 3, 0)
  \o P("e_garm",  MatchE(<<GArm(Blk(<<H("S", 0, g)>>), H("E", n, g)), Arm(H("E", n, g))>>), 3, 0)
  \o P("e_blk",   Blk(<<H("S", 0, g), H("E", n, g)>>), 2, 0)
  \o P("e_paren", Paren(H("E", n, g)), 1, 0)
  \o P("e_meth",  Meth(H("E", n, g)), 1, 0)
  \o P("e_loop",  LoopE("", Blk(<<H("LS", 0, InLoop(g, "", n, "")), Semi(Brk("", <<H("E", n, InLoop(g, "", n, ""))>>))>>)), 2, 0)
  \o P("e_loopa", LoopE("'a", Blk(<<H("LS", 0, InLoop(g, "'a", n, "")), Semi(Brk("'a", <<H("E", n, InLoop(g, "'a", n, ""))>>))>>)), 2, 0)
  \o P("e_loopb", LoopE("'b", Blk(<<H("LS", 0, InLoop(g, "'b", n, "")), Semi(Brk("'b", <<H("E", n, InLoop(g, "'b", n, ""))>>))>>)), 2, 0)
  \o P("e_lblk",  LBlk("'a", <<H("S", 0, InLBlk(g, "'a", n)), H("E", n, InLBlk(g, "'a", n))>>), 2, 0)
  \o P("e_lblkb", LBlk("'b", <<If1(Blk(<<Semi(Brk("'b", <<H("E", n, InLBlk(g, "'b", n))>>))>>)), H("E", n, InLBlk(g, "'b", n))>>), 2, 0)
  \o P("e_call",  Call(Paren(Clos(H("E", n, InFn(g, Tgt("", n, "")))))), 1, 0)
  \o P("e_calls", Call(Paren(Clos(Blk(<<H("S", 0, InFn(g, Tgt("", n, ""))), H("E", n, InFn(g, Tgt("", n, "")))>>)))), 2, 0)
  \o P("e_bo",    Bo(Async(Blk(<<H("S", 0, InFn(g, Tgt("", n, ""))), H("E", n, InFn(g, Tgt("", n, "")))>>))), 2, 0)
  \o P("e_let",   Blk(<<Let(r, H("E", n, g)), Var(r)>>), 1, 1)
  \o P("e_val",   UMac(n), 0, 0)
  \o P("e_idf",   IdF(H("E", n, g)), 1, 0)
  \o P("e_unsafe", Unsafe(<<H("E", n, g)>>), 1, 0)
  \o PIf(g.q \in {1}, "e_try", TryE(Fal(n)), 0, 0)
  \o P("e_tryc",  Blk(<<Semi(See(Call(Paren(Clos(Blk(<<Let(r, TryE(Fal(r))), Semi(See(Var(r))), OkT(8, r, Leaf(8))>>)))))), Leaf(n)>>), 0, 1)

BrkTargets(g) == {i \in 1..Len(g.brk) : g.brk[i].t > -2}
Diverge(nm, g, ks) ==   \* all legal exits here: ks which kinds
     PIf(g.ret.t > -2 /\ "ret" \in ks, nm \o "_ret",
         IF g.ret.t = -1 THEN Ret(<<>>) ELSE Ret(<<H("V", g.ret.t, [g EXCEPT !.x = g.ret.mk])>>),
         IF g.ret.t = -1 THEN 0 ELSE 1, 0)
  \o PIf(g.ret.t = 0 /\ "ret" \in ks, nm \o "_retu", Ret(<<>>), 0, 0)
  \o PIf(g.ret.t = -3 /\ "ret" \in ks, nm \o "_ret", Ret(<<OkC(Leaf(0))>>), 0, 0)
  \o PIf(g.ret.t = -3 /\ g.ret.mk # "" /\ "ret" \in ks, nm \o "_reterr", Ret(<<ErrW(Mac(g.ret.mk, <<ErrLeaf(nxt)>>))>>), 0, 1)
  \o PIf(g.ret.t = -4 /\ "ret" \in ks, nm \o "_ret", Ret(<<NoneE>>), 0, 0)
  \o PIf(g.ret.t = -6 /\ "ret" \in ks, nm \o "_ret", Ret(<<Leaf(0)>>), 0, 0)
  \o Cat([i \in 1..Len(g.brk) |->
        PIf(i \in BrkTargets(g) /\ "brk" \in ks /\ (g.brk[i].l # "" \/ (i = Len(g.brk) /\ g.un)), nm \o "_brk",
            IF g.brk[i].t = -1 THEN Brk(g.brk[i].l, <<>>)
            ELSE Brk(g.brk[i].l, <<H("V", g.brk[i].t, [g EXCEPT !.x = g.brk[i].mk])>>),
            IF g.brk[i].t = -1 THEN 0 ELSE 1, 0)], Len(g.brk))
  \o (IF Len(g.brk) > 0 /\ g.un /\ g.brk[Len(g.brk)].l # "" /\ g.brk[Len(g.brk)].t > -2 /\ "brk" \in ks
      THEN LET b == g.brk[Len(g.brk)] IN
           P(nm \o "_brk0", IF b.t = -1 THEN Brk("", <<>>) ELSE Brk("", <<H("V", b.t, [g EXCEPT !.x = b.mk])>>),
             IF b.t = -1 THEN 0 ELSE 1, 0)
      ELSE <<>>)
  \o PIf(Len(g.brk) > 0 /\ g.un /\ "brk" \in ks, nm \o "_cont", Cont(""), 0, 0)

AllK == {"ret", "brk"}
\* where the value is discarded, `None?` does not make a block diverge
Strict(g) == [g EXCEPT !.q = IF @ \in {2, 3} THEN 0 ELSE @]

\* an expression that yields no value and is recognised as such
ProdD(h) ==
  LET g == h.g IN
     P("d_panic",  Mac("panic", <<>>), 0, 0)
  \o P("d_unreach", Mac("unreachable", <<>>), 0, 0)
  \o P("d_stdpanic", Mac("std::panic", <<>>), 0, 0)
  \o P("d_coreunr", Mac("core::unreachable", <<>>), 0, 0)
  \o Diverge("d", g, AllK)
  \o PIf(g.q = 2, "d_none", TryE(NoneE), 0, 0)
  \o PIf(g.q = 3, "d_err", TryE(ErrC(1)), 0, 0)
  \o P("d_semi",  Blk(<<Semi(H("D", 0, Strict(g)))>>), 1, 0)
  \o P("d_blk",   Blk(<<H("S", 0, g), H("D", 0, g)>>), 2, 0)
  \o P("d_unsafe", Unsafe(<<H("D", 0, g)>>), 1, 0)
  \o P("d_match", MatchE(<<Arm(H("D", 0, g)), Arm(H("D", 0, g))>>), 2, 0)
  \o PIf(~g.op, "d_matchn", MatchE(<<At(Arm(H("ND", 0, g)), {"never"}), Arm(H("D", 0, g))>>), 2, 0)
  \o PIf(~g.op, "d_matchm", MatchE(<<At(Arm(H("D", 0, g)), {"never"}), Arm(H("D", 0, g))>>), 2, 0)
  \o P("d_paren", Paren(H("D", 0, g)), 1, 0)
  \o P("d_smac",  Blk(<<Semi(Mac("panic", <<>>))>>), 0, 0)
  \o P("d_smac2", Blk(<<Mac("unreachable", <<>>)>>), 0, 0)
  \o P("d_let",   Blk(<<Let(nxt, H("D", 0, Strict(g)))>>), 1, 1)
  \o P("d_item",  Blk(<<Semi(H("D", 0, Strict(g))), ItemS("plain", <<>>)>>), 1, 0)

\* an expression that yields no value but must be marked #[never]
ProdND(h) ==
  LET blind(t) == IF t.t = 0 THEN [t EXCEPT !.t = -2] ELSE t
      g0 == h.g
      g == [g0 EXCEPT !.ret = blind(@), !.brk = [i \in 1..Len(@) |-> blind(@[i])], !.q = IF @ = 1 THEN 0 ELSE @]
  IN P("n_die",  Die, 0, 0)
  \o PIf(g0.ret.t = 0 /\ g0.ret.mk # "", "n_retmk", Ret(<<Mac(g0.ret.mk, <<Leaf(nxt)>>)>>), 0, 1)
  \o Cat([i \in 1..Len(g0.brk) |->
        PIf(g0.brk[i].t = 0 /\ g0.brk[i].mk # "" /\ (g0.brk[i].l # "" \/ (i = Len(g0.brk) /\ g0.un)), "n_brkmk",
            Brk(g0.brk[i].l, <<Mac(g0.brk[i].mk, <<Leaf(nxt)>>)>>), 0, 1)], Len(g0.brk))
  \o P("n_loop", LoopE("", Blk(<<H("LS", 0, InLoop(g, "", -2, ""))>>)), 1, 0)
  \o P("n_if",   IfE(Blk(<<H("D", 0, g)>>), Blk(<<H("D", 0, g)>>)), 2, 0)
  \o P("n_d",    H("D", 0, g), 1, 0)

\* the operand of an exit: type n (0: alternative)
ProdV(h) ==
  LET g == h.g  n == h.n  r == nxt IN
  IF n > 0 THEN P("v_e", H("E", n, g), 1, 0) \o P("v_leaf", Leaf(n), 0, 0)
  ELSE IF n = -1 THEN <<[nm |-> "v_unit", r |-> UnitE, h |-> 0, f |-> 0]>>
  ELSE P("v_leaf", Leaf(r), 0, 1)
    \o P("v_e", H("E", r, g), 1, 1)
    \o PIf(g.x # "", "v_mk", Mac(g.x, <<H("E", r, Opaque(g))>>), 1, 1)

\* a statement
ProdS(h) ==
  LET g == h.g  r == nxt IN
     P("s_see",   Semi(See(Leaf(r))), 0, 1)
  \o P("s_seee",  Semi(See(H("E", r, g))), 1, 1)
  \o P("s_if",    If1(Blk(<<H("S", 0, g)>>)), 1, 0)
  \o P("s_ifs",   Semi(If1(Blk(<<H("S", 0, g)>>))), 1, 0)
  \o MapSeq(Diverge("s", g, AllK), LAMBDA p : [p EXCEPT !.r = If1(Blk(<<Semi(@)>>))])
  \o MapSeq(Diverge("s2", g, AllK), LAMBDA p : [p EXCEPT !.r = If1(Blk(<<@>>))])
  \o MapSeq(Diverge("s3", g, AllK), LAMBDA p : [p EXCEPT !.r = Let(r, IfE(Blk(<<Leaf(8)>>), Blk(<<@>>)))])
  \o MapSeq(Diverge("sc", g, AllK), LAMBDA p : [p EXCEPT !.r = Semi(See(IfE(Blk(<<Leaf(8)>>), Blk(<<Semi(@)>>))))])
  \o MapSeq(Diverge("sn", g, AllK), LAMBDA p :
        [p EXCEPT !.r = If1(Blk(<<Semi(IfE(Blk(<<Semi(See(Leaf(9)))>>), Blk(<<Semi(@)>>)))>>))])
  \* an exit inside the operand of another expression: a call, a method, `return`, `break` and `?`
  \o MapSeq(Diverge("so", g, AllK), LAMBDA p : [p EXCEPT !.r = Semi(See(IdF(IfE(Blk(<<@>>), Blk(<<Leaf(8)>>)))))])
  \o MapSeq(Diverge("sm", g, AllK), LAMBDA p : [p EXCEPT !.r = Let(r, Meth(Paren(IfE(Blk(<<Leaf(8)>>), Blk(<<@>>)))))])
  \o (IF g.ret.t < 0 THEN <<>> ELSE
      MapSeq(Diverge("sr", g, AllK), LAMBDA p : [p EXCEPT !.r = If1(Blk(<<Semi(Ret(<<IfE(Blk(<<@>>), Blk(<<Leaf(IF g.ret.t = 0 THEN r ELSE g.ret.t)>>))>>))>>)), !.f = @ + 1]))
  \o (IF Len(g.brk) = 0 \/ ~g.un THEN <<>> ELSE
      LET b == g.brk[Len(g.brk)] IN
      IF b.t < 0 THEN <<>> ELSE
      MapSeq(Diverge("sb", g, AllK), LAMBDA p : [p EXCEPT !.r = If1(Blk(<<Semi(Brk("", <<IfE(Blk(<<@>>), Blk(<<Leaf(IF b.t = 0 THEN r ELSE b.t)>>))>>))>>)), !.f = @ + 1]))
  \o (IF g.q \notin {1, 3} THEN <<>> ELSE
      MapSeq(Diverge("sq", g, AllK), LAMBDA p : [p EXCEPT !.r = Semi(See(TryE(Paren(IfE(Blk(<<@>>), Blk(<<Fal(IF g.q = 1 THEN r ELSE 1)>>)))))), !.f = @ + 1]))
  \o (IF g.q # 2 THEN <<>> ELSE
      MapSeq(Diverge("sq", g, AllK), LAMBDA p : [p EXCEPT !.r = Semi(See(TryE(Paren(IfE(Blk(<<@>>), Blk(<<SomeC(Leaf(8))>>))))))]))
  \o P("s_while", WhileE("", Blk(<<H("S", 0, InLoop(g, "", -1, ""))>>)), 1, 0)
  \o P("s_whilea", WhileE("'a", Blk(<<H("S", 0, InLoop(g, "'a", -1, ""))>>)), 1, 0)
  \o P("s_whileb", WhileE("'b", Blk(<<H("S", 0, InLoop(g, "'b", -1, ""))>>)), 1, 0)
  \o P("s_ifh",   IfH1(Blk(<<H("S", 0, g)>>), Blk(<<H("S", 0, g)>>)), 2, 0)
  \o P("s_matchh", Semi(MatchH(Blk(<<H("S", 0, g)>>), <<GArm(Blk(<<H("S", 0, g)>>), Blk(<<>>)), Arm(Blk(<<>>))>>)), 2, 0)
  \o P("s_whileh", WhileH("", Blk(<<H("S", 0, HeadOf(g, ""))>>), Blk(<<H("S", 0, InLoop(g, "", -1, ""))>>)), 2, 0)
  \o P("s_whileha", WhileH("'a", Blk(<<H("S", 0, HeadOf(g, "'a"))>>), Blk(<<H("S", 0, InLoop(g, "'a", -1, ""))>>)), 2, 0)
  \o P("s_whilehb", WhileH("'b", Blk(<<H("S", 0, HeadOf(g, "'b"))>>), Blk(<<H("S", 0, InLoop(g, "'b", -1, ""))>>)), 2, 0)
  \o P("s_for",   ForE("", IterE, Blk(<<H("S", 0, InLoop(g, "", -1, ""))>>)), 1, 0)
  \o P("s_fora",  ForE("'a", IterE, Blk(<<H("S", 0, InLoop(g, "'a", -1, ""))>>)), 1, 0)
  \o P("s_forh",  ForE("", Blk(<<H("S", 0, g), IterE>>), Blk(<<H("S", 0, InLoop(g, "", -1, ""))>>)), 2, 0)
  \o P("s_forha", ForE("'a", Blk(<<H("S", 0, g), IterE>>), Blk(<<H("S", 0, InLoop(g, "'a", -1, ""))>>)), 2, 0)
  \o P("s_loop",  LoopE("", Blk(<<H("S", 0, InLoop(g, "", -1, "")), Semi(Brk("", <<>>))>>)), 1, 0)
  \o P("s_loopa", LoopE("'a", Blk(<<H("S", 0, InLoop(g, "'a", -1, "")), Semi(Brk("'a", <<>>))>>)), 1, 0)
  \o P("s_loopb", LoopE("'b", Blk(<<H("S", 0, InLoop(g, "'b", -1, "")), Semi(Brk("'b", <<>>))>>)), 1, 0)
  \o P("s_lblk",  LBlk("'a", <<H("S", 0, InLBlk(g, "'a", -1))>>), 1, 0)
  \o P("s_lblkb", LBlk("'b", <<H("S", 0, InLBlk(g, "'b", -1))>>), 1, 0)
  \o P("s_clos",  Semi(See(Call(Paren(Clos(Blk(<<H("S", 0, InFn(g, Tgt("", 7, ""))), Leaf(7)>>)))))), 1, 0)
  \o P("s_closu", Semi(Call(Paren(Clos(Blk(<<H("S", 0, InFn(g, Tgt("", -1, "")))>>))))), 1, 0)
  \o P("s_async", Semi(See(Bo(Async(Blk(<<H("S", 0, InFn(g, Tgt("", 7, ""))), Leaf(7)>>))))), 1, 0)
  \o P("s_item",  Blk(<<ItemS("ret", <<>>), Semi(See(ICall("ret")))>>), 0, 0)
  \o P("s_itemb", Blk(<<ItemS("nested", <<>>), Semi(See(ICall("nested")))>>), 0, 0)
  \o P("s_letif", Let(r, IfE(Blk(<<H("E", r, g)>>), Blk(<<H("E", r, g)>>))), 2, 1)
  \o P("s_kid",   Semi(See(An(H("X", 0, Inner(g, "marker")), "D"))), 1, 0)
  \o P("s_kidlet", An(Let(r, H("X", 0, Inner(g, "marker"))), "D"), 1, 1)
  \o P("s_kidta", TaLet(r, H("X", 0, Inner(g, "marker")), "E"), 1, 1)
  \o P("s_kidm2", Semi(See(An(H("X", 0, Inner(g, "m2")), "Dm2"))), 1, 0)
  \o P("s_kidclos", An(Let(r, Clos(Blk(<<H("S", 0, InFn(Inner(g, "marker"), Tgt("", 0, "marker"))),
                                          H("T", 0, InFn(Inner(g, "marker"), Tgt("", 0, "marker")))>>))), "D"), 2, 1)
  \o PIf(~g.op, "s_never", Semi(IfE(Blk(<<Semi(See(Leaf(9)))>>), Blk(<<Semi(At(H("D", 0, [g EXCEPT !.ret = NoRet, !.brk = <<>>]), {"never"}))>>))), 1, 0)
  \o P("s_val",   Semi(UMac(r)), 0, 1)
  \o PIf(~g.op, "s_neverm", Semi(IfE(Blk(<<Semi(See(Leaf(9)))>>), Blk(<<Semi(At(Mac("panic", <<>>), {"never"}))>>))), 0, 0)
  \o PIf(g.q = 1, "s_try", Let(r, TryE(Fal(r))), 0, 1)
  \o PIf(g.q = 1, "s_trys", Semi(TryE(Fal(r))), 0, 1)
  \o PIf(g.q = 1, "s_tryif", If1(Blk(<<Semi(TryE(Fal(r)))>>)), 0, 1)
  \o PIf(g.q = 1, "s_tryerr", If1(Blk(<<Semi(TryE(ErrC(r)))>>)), 0, 1)
  \o P("s_tryc",  Semi(See(Call(Paren(Clos(Blk(<<Semi(TryE(Fal(5))), Semi(TryE(Fal(5))), OkT(6, 5, Leaf(6))>>)))))), 0, 0)
  \o P("s_lelse", LElse(Blk(<<H("D", 0, Strict(g))>>)), 1, 0)
  \o P("s_lelses", LElse(Blk(<<H("S", 0, g), Semi(H("D", 0, Strict(g)))>>)), 2, 0)
  \o P("s_tryb", Semi(See(TryB(Blk(<<Semi(TryE(Fal(5))), Semi(TryE(Fal(5))), Leaf(6)>>)))), 0, 0)
  \o P("s_trya",  Semi(See(Bo(Async(Blk(<<Semi(TryE(Fal(5))), OkT(6, 5, Leaf(6))>>))))), 0, 0)

\* loop bodies: LS a statement that may break, LZ the end of the body
ProdLS(h) == ProdS([h EXCEPT !.s = "S"])
ProdLZ(h) ==
  LET g == h.g  b == g.brk[Len(g.brk)] IN
     P("l_brk",  Semi(Brk(b.l, <<H("V", 0, [g EXCEPT !.x = b.mk])>>)), 1, 0)
  \o P("l_brk0", Brk("", <<H("V", 0, [g EXCEPT !.x = b.mk])>>), 1, 0)
  \o P("l_brkn", Brk(b.l, <<Brk(b.l, <<H("V", 0, [g EXCEPT !.x = b.mk])>>)>>), 1, 0)
  \o P("l_s",    H("S", 0, g), 1, 0)
  \o P("l_if",   IfE(Blk(<<Semi(Brk("", <<H("V", 0, [g EXCEPT !.x = b.mk])>>))>>), Blk(<<Brk(b.l, <<H("V", 0, [g EXCEPT !.x = b.mk])>>)>>)), 2, 0)

\* unwalked code in which every value is produced by a marker
ProdMK(h) ==
  LET g == h.g  r == nxt IN
     P("m_if",   IfE(Blk(<<Mac(g.x, <<H("E", r, Opaque(g))>>)>>), Blk(<<Mac(g.x, <<H("E", r + 1, Opaque(g))>>)>>)), 2, 2)
  \o P("m_match", MatchE(<<Arm(Mac(g.x, <<Leaf(r)>>)), Arm(Mac(g.x, <<H("E", r + 1, Opaque(g))>>)), Arm(H("MA", 0, g))>>), 2, 2)
  \o P("m_blk",  Blk(<<H("S", 0, g), H("MK", 0, g)>>), 2, 0)
  \o P("m_bo",   Bo(Async(Blk(<<H("MK", 0, InFn(g, NoRet))>>))), 1, 0)
  \o P("m_call", Call(Paren(Clos(H("MK", 0, InFn(g, NoRet))))), 1, 0)
ProdMA(h) ==
  LET g == h.g IN
     P("m_mk", Mac(g.x, <<H("E", nxt, Opaque(g))>>), 1, 1)
  \o P("m_d",  H("D", 0, g), 1, 0)
  \o P("m_rec", H("MK", 0, g), 1, 0)

\* the `?` scope: Q at least one `?`, TT its tail
ProdQ(h) ==
  LET g == h.g  r == nxt IN
     P("q_let",  Let(r, TryE(Fal(r))), 0, 1)
  \o P("q_semi", Semi(TryE(Fal(r))), 0, 1)
  \o P("q_see",  Semi(See(TryE(Fal(r)))), 0, 1)
  \o P("q_if",   If1(Blk(<<H("Q", 0, g)>>)), 1, 0)
  \o P("q_ife",  Semi(See(IfE(Blk(<<TryE(Fal(r))>>), Blk(<<TryE(Fal(r))>>)))), 0, 1)
  \o P("q_err",  If1(Blk(<<Semi(TryE(ErrC(r)))>>)), 0, 1)
  \o P("q_errt", Semi(See(IfE(Blk(<<TryE(ErrC(r))>>), Blk(<<Leaf(8)>>)))), 0, 1)
  \o P("q_while", WhileE("", Blk(<<H("Q", 0, g)>>)), 1, 0)
  \o P("q_hd",   IfH1(Blk(<<H("Q", 0, g)>>), Blk(<<Semi(TryE(Fal(r)))>>)), 1, 1)
  \o P("q_mhd",  Semi(See(MatchH(Blk(<<Semi(TryE(Fal(r)))>>), <<GArm(Blk(<<Semi(TryE(Fal(r + 1)))>>), Leaf(8)), Arm(TryE(ErrC(r)))>>))), 0, 2)
  \o P("q_meth", Semi(See(Meth(TryE(Fal(r))))), 0, 1)
  \o P("q_nest", Semi(See(TryE(Paren(IfE(Blk(<<OkC(TryE(Fal(r)))>>), Blk(<<Fal(r)>>)))))), 0, 1)
  \o P("q_qq",   Let(r, TryE(TryE(FalFal))), 0, 1)
  \o P("q_idf",  Semi(See(IdF(TryE(IdF(Fal(r)))))), 0, 1)
  \o P("q_blk",  Let(r, Blk(<<H("S", 0, g), TryE(Fal(r))>>)), 1, 1)
  \o P("q_kid",  An(Let(r, IfE(Blk(<<Leaf(r)>>), Blk(<<TryE(Fal(r + 1))>>))), "D"), 0, 2)
ProdTT(h) ==
  LET g == h.g  r == nxt IN
     P("tt_ok",   OkC(Leaf(0)), 0, 0)
  \o P("tt_oks",  OkC(Blk(<<H("S", 0, g), Leaf(0)>>)), 1, 0)
  \o P("tt_okq",  OkC(TryE(Fal(0))), 0, 0)
  \o P("tt_if",   IfE(Blk(<<H("TT", 0, g)>>), Blk(<<H("TT", 0, g)>>)), 2, 0)
  \o P("tt_err",  TryE(ErrC(r)), 0, 1)
  \o P("tt_mk",   ErrW(Mac("marker", <<ErrLeaf(r)>>)), 0, 1)
  \o P("tt_match", MatchE(<<Arm(H("TT", 0, g)), Arm(H("D", 0, g))>>), 2, 0)
  \o P("tt_ret",  Ret(<<H("TT", 0, g)>>), 1, 0)
  \o P("tt_blk",  Blk(<<H("S", 0, g), H("TT", 0, g)>>), 2, 0)
ProdRN(h) ==
  LET g == h.g  r == nxt IN
     P("rn_q",    Semi(See(TryE(Paren(IfE(Blk(<<OkC(Leaf(r))>>), Blk(<<ErrW(Mac("marker", <<ErrLeaf(r + 1)>>))>>)))))), 0, 2)
  \o P("rn_ret", If1(Blk(<<Semi(Ret(<<ErrW(Mac("marker", <<ErrLeaf(r)>>))>>))>>)), 0, 1)
  \o P("rn_s",   H("S", 0, g), 1, 0)
ProdQT(h) ==
  LET g == h.g  r == nxt IN
     P("qt_ifs",  IfE(Blk(<<TryE(ErrC(r))>>), Blk(<<TryE(ErrC(r + 1))>>)), 0, 2)
  \o P("qt_ok2",  Blk(<<Semi(TryE(Fal(r))), OkC(TryE(Fal(0)))>>), 0, 1)
  \o P("qt_qq",   Blk(<<H("S", 0, g), Semi(See(TryE(TryE(FalFal)))), OkC(Leaf(0))>>), 1, 0)
  \o P("qt_qmq",  Blk(<<Let(r, TryE(Meth(TryE(FalFal)))), H("TT", 0, g)>>), 1, 1)
  \o P("qt_qpq",  OkC(IdF(Blk(<<Semi(TryE(Paren(TryE(FalFal)))), Leaf(0)>>))), 0, 0)
  \o P("qt_match", MatchE(<<Arm(TryE(ErrC(r))), Arm(TryE(ErrC(r + 1))), Arm(H("TT", 0, g))>>), 1, 2)
  \o P("qt_loop", LoopE("", Blk(<<H("Q", 0, g), H("Q", 0, g), Semi(Brk("", <<H("TT", 0, g)>>))>>)), 3, 0)

\* `?`-diverging arms
ProdTRY(h) ==
  LET g == h.g IN
     PIf(g.q = 2, "y_none", TryE(NoneE), 0, 0)
  \o PIf(g.q = 3, "y_err", TryE(ErrC(1)), 0, 0)

\* nested items: their own returns, breaks and annotations are theirs
ProdI(h) ==
     P("i_ret",  Blk(<<ItemS("ret", <<>>), Semi(See(ICall("ret")))>>), 0, 0)
  \o P("i_nested", Blk(<<ItemS("nested", <<>>), Semi(See(ICall("nested")))>>), 0, 0)
  \o P("i_const", ItemS("const", <<>>), 0, 0)
  \o P("i_macro", ItemS("macro", <<>>), 0, 0)

(***************************************************************************)
(* Productions of programs that may have to be rejected: W a tail or       *)
(* initialiser of any shape, Z a statement, U a branch.                    *)
(***************************************************************************)
ProdW(h) ==
  LET g == h.g  r == nxt IN
     P("w_leaf",  Leaf(r), 0, 1)
  \o P("w_if",    IfE(Blk(<<H("U", 0, g)>>), Blk(<<H("U", 0, g)>>)), 2, 0)
  \o P("w_noelse", If1(Blk(<<H("U", 0, g)>>)), 1, 0)
  \o P("w_elif",  IfE(Blk(<<H("U", 0, g)>>), If1(Blk(<<H("U", 0, g)>>))), 2, 0)
  \o P("w_elif3", IfE(Blk(<<H("U", 0, g)>>), IfE(Blk(<<H("U", 0, g)>>), If1(Blk(<<H("U", 0, g)>>)))), 3, 0)
  \o P("w_match1", MatchE(<<Arm(H("U", 0, g))>>), 1, 0)
  \o P("w_match", MatchE(<<Arm(H("U", 0, g)), Arm(H("U", 0, g))>>), 2, 0)
  \o P("w_blk",   Blk(<<H("Z", 0, g), H("W", 0, g)>>), 2, 0)
  \o P("w_unsafe", Unsafe(<<H("W", 0, g)>>), 1, 0)
  \o P("w_paren", Paren(H("W", 0, g)), 1, 0)
  \o P("w_meth",  Meth(H("W", 0, g)), 1, 0)
  \o P("w_loop",  LoopE("", Blk(<<H("Z", 0, InLoop(g, "", 0, g.x))>>)), 1, 0)
  \o P("w_while", WhileE("", Blk(<<H("Z", 0, InLoop(g, "", -1, g.x))>>)), 1, 0)
  \o P("w_mk",    Mac("marker", <<Leaf(r)>>), 0, 1)
  \o P("w_mk1",   Mac("m1", <<Leaf(r)>>), 0, 1)
  \o P("w_val",   UMac(r), 0, 1)
  \o P("w_mk0",   Mac(g.x, <<>>), 0, 0)
  \o P("w_semi",  Blk(<<Semi(H("W", 0, g))>>), 1, 0)
  \o P("w_never", At(Leaf(r), {"never"}), 0, 1)
ProdU(h) ==
  LET g == h.g  r == nxt IN
     P("u_leaf",  Leaf(r), 0, 1)
  \o P("u_panic", Mac("panic", <<>>), 0, 0)
  \o P("u_unit",  UnitE, 0, 0)
  \o P("u_never", At(Die, {"never"}), 0, 0)
  \o P("u_neverl", At(Leaf(r), {"never()"}), 0, 1)
  \o P("u_nestl", At(H("W", 0, g), {"nested()"}), 1, 0)
  \o P("u_rec",   At(Leaf(r), {"rec"}), 0, 1)
  \o P("u_nest",  At(H("W", 0, g), {"nested"}), 1, 0)
  \o P("u_mk",    Mac(g.x, <<Leaf(r)>>), 0, 1)
  \o P("u_mk0",   Mac(g.x, <<>>), 0, 0)
  \o P("u_ret",   Ret(<<Leaf(r)>>), 0, 1)
  \o P("u_retmk", Ret(<<Mac("m1", <<Leaf(r)>>)>>), 0, 1)
  \o P("u_if1",   If1(Blk(<<Semi(See(Leaf(r)))>>)), 0, 1)
  \o P("u_w",     Blk(<<H("W", 0, g)>>), 1, 0)
  \o P("u_kid",   An(H("W", 0, Inner(g, "marker")), "D"), 1, 0)
  \o P("u_kid0",  An(H("W", 0, Inner(g, "marker")), "E"), 1, 0)
  \o P("u_kidlet", Blk(<<An(Let(r, H("W", 0, Inner(g, "marker"))), "D"), Leaf(r)>>), 1, 1)
  \o P("u_kidlet1", Blk(<<An(Let(r, H("W", 0, Inner(g, "m1"))), "Dm1"), Leaf(r)>>), 1, 1)
ProdZ(h) ==
  LET g == h.g  r == nxt IN
     P("z_see",  Semi(See(Leaf(r))), 0, 1)
  \o P("z_ret",  If1(Blk(<<Semi(Ret(<<Leaf(r)>>))>>)), 0, 1)
  \o P("z_retn", If1(Blk(<<Semi(At(Ret(<<Leaf(r)>>), {"never"}))>>)), 0, 1)
  \o P("z_brkv", Semi(IfE(Blk(<<Brk("", <<Leaf(r)>>)>>), Blk(<<>>))), 0, 1)
  \o P("z_let",  Let(r, H("W", 0, g)), 1, 1)
  \o P("z_nlet", At(Let(r, H("W", 0, g)), {"nested"}), 1, 1)
  \o P("z_nletl", At(Let(r, Leaf(r)), {"nested()"}), 0, 1)
  \o P("z_neverl", At(Let(r, Leaf(r)), {"never()"}), 0, 1)
  \o P("z_recl", At(Let(r, Leaf(r)), {"rec"}), 0, 1)
  \o P("z_kid",  An(Let(r, H("W", 0, Inner(g, "marker"))), "D"), 1, 1)
  \o P("z_kidm1", An(Let(r, H("W", 0, Inner(g, "m1"))), "Dm1"), 1, 1)
  \o P("z_kide", An(Let(r, H("W", 0, Inner(g, "marker"))), "E"), 1, 1)
  \o P("z_kidx", An(Let(r, Leaf(r)), "Xdup"), 0, 1)
  \o P("z_kidu", An(LetU(r), "D"), 0, 1)
  \o P("z_kids", Semi(An(H("W", 0, Inner(g, "marker")), "D")), 1, 0)
  \o P("z_kidse", Semi(An(H("W", 0, Inner(g, "marker")), "E")), 1, 0)
  \o P("z_try",  Semi(TryE(Fal(r))), 0, 1)
  \o P("z_tryc", Semi(See(Call(Paren(Clos(Blk(<<Semi(TryE(Fal(5))), OkT(6, 5, Leaf(6))>>)))))), 0, 0)
  \o P("z_asyncret", Semi(See(Bo(Async(Blk(<<Semi(Ret(<<Leaf(7)>>))>>))))), 0, 0)
  \o P("z_val",  Semi(UMac(r)), 0, 1)
  \o P("z_mks",  Semi(Mac(g.x, <<Leaf(r)>>)), 0, 1)
  \o P("z_vals", Semi(An(UMac(r), "D")), 0, 1)
  \o P("z_item", ItemS("ret", <<>>), 0, 0)

Prods(h) ==
  CASE h.s = "P" -> ProdP
    [] h.s = "X" -> ProdX(h)
    [] h.s = "Xa" -> MapSeq(ProdX(h), AnnX)
    [] h.s = "T" -> ProdT(h)
    [] h.s = "A" -> ProdA(h)
    [] h.s = "N" -> ProdN(h)
    [] h.s = "E" -> ProdE(h)
    [] h.s = "D" -> ProdD(h)
    [] h.s = "ND" -> ProdND(h)
    [] h.s = "V" -> ProdV(h)
    [] h.s = "S" -> ProdS(h)
    [] h.s = "LS" -> ProdLS(h)
    [] h.s = "LZ" -> ProdLZ(h)
    [] h.s = "MK" -> ProdMK(h)
    [] h.s = "MA" -> ProdMA(h)
    [] h.s = "Q" -> ProdQ(h)
    [] h.s = "TT" -> ProdTT(h)
    [] h.s = "QT" -> ProdQT(h)
    [] h.s = "RN" -> ProdRN(h)
    [] h.s = "TRY" -> ProdTRY(h)
    [] h.s = "I" -> ProdI(h)
    [] h.s = "W" -> ProdW(h)
    [] h.s = "Wa" -> MapSeq(ProdW(h), AnnX)
    [] h.s = "Wx" -> MapSeq(ProdW(h), LAMBDA p : [p EXCEPT !.r = An(@, "E")])
    [] h.s = "U" -> ProdU(h)
    [] h.s = "Z" -> ProdZ(h)

(***************************************************************************)
(* The state machine.                                                      *)
(***************************************************************************)
NoCx == NewCx("", "E", TRUE, <<>>, FALSE)

Init == /\ prog = H("P", 0, Env0) /\ tot = 1 /\ nxt = 10 /\ d = <<>>
        /\ sl = 0 /\ on = {} /\ bd = 0
        /\ ph = "start" /\ cx = NoCx /\ body = UnitE /\ errs = <<>> /\ runs = <<>>

Choose ==        \* which slice of the grammar this program comes from
  /\ ph = "start"
  /\ \E i \in (IF Sample THEN {RandomElement(1..Len(Slices))} ELSE 1..Len(Slices)) :
       /\ sl' = i
       /\ on' = Slices[i].on \cup (IF Slices[i].k = 0 THEN {}
                                  ELSE {RandomElement(Slices[i].root)} \cup RandomSubset(Slices[i].k, Slices[i].pool))
       /\ bd' = IF Sample THEN RandomElement((Slices[i].bd \div 2)..Slices[i].bd) ELSE Slices[i].bd
  /\ ph' = "grow" /\ UNCHANGED <<prog, tot, nxt, d, cx, body, errs, runs>>

\* Once a random program is large enough, the shortest way to finish each hole is taken.
RECURSIVE Weight(_)
Weight(e) == IF e.k = "H" THEN (IF e.s \in {"X", "Xa", "N", "T", "MK", "W", "Wa", "Wx", "LZ", "TT", "QT"} THEN 3 ELSE 1)
             ELSE FoldLeft(LAMBDA x, y : x + Weight(y), 0, e.c)
Best(ps) == LET ws == [i \in 1..Len(ps) |-> Weight(ps[i].r)]
            IN {i \in 1..Len(ps) : \A j \in 1..Len(ps) : ws[i] <= ws[j]}

Grow == /\ ph = "grow" /\ HasHole(prog)
        \* (bound by \E rather than LET: TLC evaluates such a value once)
        /\ \E ps \in {Prods(LeftHole(prog))} :
           \E fit \in {{i \in 1..Len(ps) : tot + ps[i].h <= bd}} :
           \E i \in (IF ~Sample THEN fit
                     ELSE IF ps = <<>> THEN {}
                     ELSE IF fit # {} /\ tot < bd THEN {RandomElement(fit)}
                     ELSE {RandomElement(Best(ps))}) :
             /\ prog' = Fill(prog, ps[i].r)
             /\ tot' = tot + ps[i].h
             /\ nxt' = nxt + ps[i].f
             /\ d' = Append(d, i)
        /\ UNCHANGED <<slice, ph, cx, body, errs, runs>>

Done == ph = "grow" /\ ~HasHole(prog)

BadArgs == prog.m # "" /\ Ann(prog.m).bad # ""
Reject == /\ Done /\ BadArgs
          /\ ph' = "expanded" /\ errs' = <<Ann(prog.m).bad>> /\ body' = prog.c[1]
          /\ UNCHANGED <<slice, prog, tot, nxt, d, cx, runs>>

ExpandRoots ==   \* no annotation on the function
  /\ Done /\ prog.m = ""
  /\ \E r \in {Roots(prog.c[1], 0)} : body' = r.e /\ errs' = r.errs
  /\ ph' = "expanded" /\ UNCHANGED <<slice, prog, tot, nxt, d, cx, runs>>

Annotated == prog.m # "" /\ ~BadArgs
Passthrough ==   \* a bare annotation
  /\ Done /\ Annotated /\ ~FnCx(prog, TA).d
  /\ \E r \in {PassDummy(FnCx(prog, TA), prog.c[1])} : body' = r.e /\ errs' = r.x.errs /\ cx' = r.x
  /\ ph' = "expanded" /\ UNCHANGED <<slice, prog, tot, nxt, d, runs>>

CountExits ==
  /\ Done /\ Annotated /\ FnCx(prog, TA).d
  /\ cx' = PassCount(FnCx(prog, TA), prog)
  /\ body' = prog.c[1] /\ ph' = "count" /\ UNCHANGED <<slice, prog, tot, nxt, d, errs, runs>>
VisitTail ==
  /\ ph = "count"
  /\ \E r \in {PassWalk(cx, body)} : body' = r.e /\ cx' = r.x
  /\ ph' = "tail" /\ UNCHANGED <<slice, prog, tot, nxt, d, errs, runs>>
FallBack ==      \* nothing to do after all: the annotation was only inferred
  /\ ph = "tail" /\ FallsBack(cx)
  /\ \E r \in {PassDummy(cx, body)} : body' = r.e /\ errs' = r.x.errs /\ cx' = r.x
  /\ ph' = "expanded" /\ UNCHANGED <<slice, prog, tot, nxt, d, runs>>
VisitBody ==
  /\ ph = "tail" /\ ~FallsBack(cx)
  /\ \E r \in {PassVisit(cx, body)} : body' = r.e /\ cx' = r.x
  /\ ph' = "visited" /\ UNCHANGED <<slice, prog, tot, nxt, d, errs, runs>>
BuildEnum ==
  /\ ph = "visited"
  /\ \E r \in {PassBuild(cx, body)} : body' = r.e /\ cx' = r.x /\ errs' = r.x.errs
  /\ ph' = "expanded" /\ UNCHANGED <<slice, prog, tot, nxt, d, runs>>

RECURSIVE Clean(_)
Clean(e) == /\ e.m = "" /\ e.a = {}
            /\ (e.k = "mac" => e.s \in DivMacros \cup {"val"})
            /\ \A i \in 1..Len(e.c) : Clean(e.c[i])

WellTyped == errs = <<>> /\ TyFn(prog.s, body)

RECURSIVE AllRuns(_), RunsFrom(_, _, _)
RunsFrom(bits, c, n) == IF c = n THEN <<>> ELSE AllRuns(Append(bits, c)) \o RunsFrom(bits, c + 1, n)
AllRuns(bits) ==
  LET s == RunFn(prog.c[1], bits) IN
  IF s.o = "more"
  THEN IF Len(bits) >= MaxBits THEN <<>> ELSE RunsFrom(bits, 0, s.st.ar)
  ELSE LET x == RunFn(body, bits)
       IN <<[b |-> bits, o |-> s.o, v |-> Show(s.v), e |-> s.st.e,
             xo |-> x.o, xv |-> Show(x.v), xe |-> x.st.e, w |-> x.v.w]>>

NoInfo == [t |-> Never, wv |-> {}, sv |-> {}]
RECURSIVE Fmt(_, _)
Fmt(rs, i) == IF i > Len(rs) THEN <<>>
              ELSE <<[b |-> rs[i].b, o |-> rs[i].o, v |-> rs[i].v, e |-> rs[i].e]>> \o Fmt(rs, i + 1)
Emit(rs) == OutFile = "" \/ CSVWrite("%1$s", <<ToJson([f |-> sl, d |-> d, p |-> prog, errs |-> errs, ok |-> WellTyped, ty |-> IF WellTyped THEN TyInfo(body) ELSE NoInfo, cl |-> Clean(body),
                                            tr |-> \A i \in 1..Len(rs) : rs[i].o = rs[i].xo /\ rs[i].v = rs[i].xv /\ rs[i].e = rs[i].xe,
                                            runs |-> Fmt(rs, 1)])>>, OutFile)

RECURSIVE RandRun(_)
RandRun(bits) ==
  LET s == RunFn(prog.c[1], bits) IN
  IF s.o = "more"
  THEN IF Len(bits) >= MaxBits THEN <<>> ELSE RandRun(Append(bits, RandomElement(0..(s.st.ar - 1))))
  ELSE LET x == RunFn(body, bits)
       IN <<[b |-> bits, o |-> s.o, v |-> Show(s.v), e |-> s.st.e,
             xo |-> x.o, xv |-> Show(x.v), xe |-> x.st.e, w |-> x.v.w]>>
RandRuns == RandRun(<<>>) \o RandRun(<<>>) \o RandRun(<<>>) \o RandRun(<<>>) \o RandRun(<<>>) \o RandRun(<<>>)

ExpandRest ==    \* what is left in opaque positions is expanded by the compiler
  /\ ph = "expanded"
  /\ \E r \in {IF errs = <<>> THEN Roots(body, 100) ELSE [e |-> body, errs |-> errs]} : body' = r.e /\ errs' = r.errs
  /\ ph' = "flat" /\ UNCHANGED <<slice, prog, tot, nxt, d, cx, runs>>

Execute ==       \* every execution of the program, source and expansion
  /\ ph = "flat"
  /\ runs' = IF WellTyped THEN (IF Sample THEN RandRuns ELSE AllRuns(<<>>)) ELSE <<>>
  /\ Emit(runs')
  /\ ph' = "done" /\ UNCHANGED <<slice, prog, tot, nxt, d, cx, body, errs>>

Stutter == ph = "done" /\ UNCHANGED vars

Next == Choose \/ Grow \/ Reject \/ ExpandRoots \/ Passthrough \/ CountExits \/ VisitTail \/ FallBack
        \/ VisitBody \/ BuildEnum \/ ExpandRest \/ Execute
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties.                                                             *)
(***************************************************************************)
\* the macro's own bookkeeping: no error and an enum iff two alternatives
EnumIffTwo == (ph = "expanded" /\ Annotated /\ cx.d /\ errs = <<>>) => (cx.nv # 1)

\* executions of the expansion are those of the source
Transparent == \A i \in 1..Len(runs) : runs[i].o = runs[i].xo /\ runs[i].v = runs[i].xv /\ runs[i].e = runs[i].xe

\* no value is wrapped twice by the same annotation
WrapOnce == \A i \in 1..Len(runs) :
              \A j, k \in 1..Len(runs[i].w) : (j # k) => runs[i].w[j][1] # runs[i].w[k][1]

\* the alternatives of one annotation are numbered 0..n-1, each used once in the text
RECURSIVE WrapsOf(_)
RECURSIVE WrapsSeq(_, _)
WrapsSeq(s, i) == IF i > Len(s) THEN <<>> ELSE WrapsOf(s[i]) \o WrapsSeq(s, i + 1)
WrapsOf(e) == (IF e.k = "wrap" THEN <<<<e.s, e.n>>>> ELSE <<>>) \o WrapsSeq(e.c, 1)
DistinctAlternatives ==
  (ph = "done" /\ errs = <<>>) =>
     LET w == WrapsOf(body) IN \A i, j \in 1..Len(w) : i # j => w[i] # w[j]

\* nothing of the macro's own vocabulary is left in the output (an annotation whose traits would have
\* been inferred may fall back to doing nothing at all)
MayFallBack == TA /\ prog.m # "" /\ ~Ann(prog.m).d
NoLeftovers == (ph = "done" /\ ~Slices[sl].loose /\ ~MayFallBack /\ WellTyped) => Clean(body)

\* programs of the valid grammar are accepted and well typed
Accepted == (ph = "done" /\ Slices[sl].acc) => (errs # <<>> \/ TyFn(prog.s, body))
=============================================================================
