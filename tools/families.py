"""Which productions of the specification's grammar each property explores, and how far.

Every property gets small families that TLC explores exhaustively (every program of the
grammar up to `bound` holes, every sequence of at most `bits` decisions) and one focused
random family (random programs, six random executions each), seeded by VERIF_SEED."""

EX = "e_leaf e_if e_ifh e_garm e_match e_ifd e_matchd e_blk e_paren e_meth e_loop e_loopa e_loopb e_lblk e_lblkb e_call e_calls e_bo e_let e_val e_idf e_unsafe e_try e_tryc"
DV = "d_panic d_unreach d_stdpanic d_coreunr d_ret d_retu d_reterr d_brk d_brk0 d_cont d_none d_err d_semi d_blk d_unsafe d_match d_matchn d_matchm d_paren d_smac d_smac2 d_let d_item"
ND = "n_die n_retmk n_brkmk n_loop n_if n_d"
VV = "v_e v_leaf v_unit v_mk"
XX = "x_if x_ifh x_elifh x_matchh x_garm x_ifs x_ifs2 x_elif x_elif4 x_match2 x_match3 x_match4 x_match12 x_elif11 x_blk x_sblk x_unsafe x_paren x_meth x_loop x_loopa x_nlet x_mklet"
AA = "a_leaf a_e a_d a_mk a_unit a_blk a_blk0 a_try a_nest a_nlet a_nmeth a_nblk a_npar a_nlet2 a_nlet3 a_nidf a_nidf2 a_nuns a_nloop a_nlblk a_nif a_nmatch a_nbo a_ncall a_kid a_kidm2 a_never"
TT = "t_ret t_mk t_blkret"
EXITS = " ".join(p + k for p in ("s", "s2", "s3", "sc", "sn", "so", "sm", "sr", "sb", "sq") for k in ("_ret", "_retu", "_reterr", "_brk", "_brk0", "_cont"))
SS = ("s_see s_seee s_if s_ifs s_ifh s_matchh s_whileh s_whileha s_whilehb s_while s_whilea s_whileb s_for s_fora s_forh s_forha s_loop s_loopa s_loopb s_lblk s_lblkb "
      "s_clos s_closu s_async s_item s_itemb s_letif s_kid s_kidlet s_kidm2 s_kidclos s_never s_neverm s_val s_try s_trys s_tryif s_tryerr s_tryc s_trya "
      "s_lelse s_lelses s_tryb ") + EXITS
LZ = "l_brk l_brk0 l_brkn l_s l_if"
MK = "m_if m_match m_blk m_bo m_call m_mk m_d m_rec"
QQ = "q_let q_semi q_see q_if q_ife q_err q_errt q_while q_hd q_mhd q_meth q_nest q_qq q_idf q_blk q_kid tt_ok tt_oks tt_okq tt_if tt_err tt_mk tt_match tt_ret tt_blk qt_ifs qt_ok2 qt_qq qt_qmq qt_qpq qt_match qt_loop"
YY = "y_none y_err"
II = "i_ret i_nested i_const i_macro"
P1 = "p_fn p_fns p_fnss p_fnm1 p_let p_letm1 p_expr p_sexpr p_nlet p_nexpr p_clos p_closs p_eclos p_nclos p_opt p_res1 p_l0"
P2 = "p_semi p_unit p_unitm p_fnlet p_fnlet1 p_fnlet2 p_fnlet3 p_2let p_2letm p_item"
P3 = "p_try p_try2 p_resn p_resne rn_q rn_ret rn_s p_tclos p_ntclos"
RR = "r_fn r_fns r_fnm1 r_let r_expr r_semi r_nlet r_empty r_unit r_try r_clos r_ann r_args r_largs r_dupmk r_dupmk3 r_dupmk4 r_uninit r_item r_vals"
WW = "w_leaf w_if w_noelse w_elif w_elif3 w_match1 w_match w_blk w_unsafe w_paren w_meth w_loop w_while w_mk w_mk1 w_val w_mk0 w_semi w_never"
UU = "u_leaf u_panic u_unit u_never u_neverl u_nestl u_rec u_nest u_mk u_mk0 u_ret u_retmk u_if1 u_w u_kid u_kid0 u_kidlet u_kidlet1"
ZZ = "z_see z_ret z_retn z_brkv z_let z_nlet z_nletl z_neverl z_recl z_kid z_kidm1 z_kide z_kidx z_kidu z_kids z_kidse z_try z_tryc z_asyncret z_val z_mks z_vals z_item"

ALL = " ".join([EX, DV, ND, VV, XX, AA, TT, SS, LZ, MK, QQ, YY, II, P1, P2, P3])


# the shortest way to finish every kind of hole
CORE = "x_if a_leaf e_leaf s_see v_leaf d_panic n_die l_brk rn_ret m_if m_mk q_let tt_ok qt_ok2 y_none y_err i_ret t_ret w_leaf u_leaf z_see".split()


def ex(on, bound, bits=8, **kw):
    return dict(on=on.split(), bound=bound, bits=bits, **kw)


def rnd(pool, n, bound=18, bits=25, k=9, **kw):
    """n random programs; each from its own random root and k random productions of the pool (swarm testing)"""
    pool = pool.split()
    root = [p for p in pool if p[:2] in ("p_", "r_") or p[:3] == "pt_"]
    return dict(on=CORE, pool=[p for p in pool if p not in root], root=root, k=k, bound=bound, bits=bits, simulate=n, **kw)


def minus(on, drop):
    d = set(drop.split())
    return " ".join(x for x in on.split() if x not in d)


def families(prop, tier):
    deep = tier != "quick"
    n = 150000 if deep else 12000         # random behaviours
    b = 1 if deep else 0                 # extra holes in the exhaustive families
    base = "e_leaf s_see a_leaf "
    F = {}
    if prop == "C01":
        F["shape"] = ex("p_fn p_let p_nexpr x_if x_elif x_match3 x_match12 x_elif11 x_blk x_unsafe x_paren x_meth a_leaf a_e a_unit e_leaf e_if e_match", 7 + b)
        F["stmts"] = ex("p_fns p_expr p_clos p_eclos x_ifs x_ifs2 x_sblk x_match2 x_ifh x_matchh x_garm a_blk a_leaf e_leaf s_see s_if s_letif s_clos", 9 + b)
        F["deep"] = ex("p_sexpr p_let x_elif4 x_match4 x_blk x_paren a_leaf a_blk0 s_see", 11 + b)
        F["mixed"] = rnd(" ".join([P1, P2, minus(XX, "x_nlet x_mklet"), "a_leaf a_e a_d a_unit a_blk a_blk0 a_mk", EX, SS, "d_panic d_ret d_brk", VV, LZ, TT]), n)
    elif prop == "C02":
        F["div"] = ex("p_fn p_let x_if x_match2 x_match3 a_leaf a_d a_never " + " ".join([DV, "n_die n_if n_loop n_d v_leaf s_see l_brk"]), 6 + b)
        F["inloop"] = ex("p_fn x_loopa x_if x_match2 l_if l_brk v_leaf s_see s_brk a_leaf a_d a_never n_brkmk n_die d_brk d_brk0 d_cont d_semi d_match p_let e_ifd e_leaf v_e s_seee e_matchd", 12 + b)
        F["try"] = ex("p_opt p_res1 x_if x_match2 x_match3 a_leaf a_d a_try a_never y_none y_err d_none d_err d_blk d_match d_paren d_matchn d_matchm n_die n_d s_see", 9 + b)
        F["marks"] = ex("p_fns p_let p_fnm1 x_if x_match3 x_paren x_blk a_mk a_leaf a_d d_panic d_retu d_ret v_leaf v_mk s_see s_ret e_leaf n_retmk a_never n_d", 8 + b)
        F["mixed"] = rnd(" ".join([P1, XX, AA, EX, DV, ND, VV, "s_see s_if s_letif s_never s_lelse s_ret s_brk s_while s_loopa", LZ, TT, YY]), n)
    elif prop == "C03":
        F["brk"] = ex("p_let p_fn x_loop x_loopa l_brk l_brk0 l_s l_if v_leaf v_unit s_see s_brk s2_brk s_brk0 s_ifh s_matchh s_while s_whileh s_whileha s_whilea s_loop s_loopa s_loopb s_for s_fora s_forh s_forha s_lblk s_lblkb s_clos s_async", 6 + b)
        F["heads"] = ex("p_let x_loop x_loopa l_brk l_if v_leaf s_brk sn_brk s3_brk s_ifh s_matchh s_whileh s_while s_if s_see e_leaf", 9 + b, alts=3)
        F["val"] = ex("p_nexpr x_loop x_loopa l_brk l_brkn l_if v_e v_mk v_leaf v_unit s_see s_seee s_brk s3_brk sc_brk e_leaf e_loop e_loopa e_lblk e_call e_bo e_if e_ifd d_brk d_brk0", 9 + b)
        F["operands"] = ex("p_let p_fn p_opt p_res1 x_loop x_loopa l_brk s_while v_leaf s_see " + " ".join(p + k for p in ("so", "sm", "sr", "sb", "sq") for k in ("_ret", "_brk", "_brk0", "_cont")), 6 + b, alts=3)
        F["never"] = ex("p_let x_loop x_loopa a_d l_brk l_if v_leaf s_see s_never s_brk s_lelse d_brk d_panic n_brkmk a_never x_if a_leaf s_if s_while", 11 + b)
        F["mixed"] = rnd(" ".join([P1, "x_loop x_loopa x_if x_match2 x_blk x_sblk x_paren x_meth", "a_leaf a_d a_blk a_never a_nest", EX, DV, ND, VV, SS, LZ]), n, bound=16)
    elif prop == "C04":
        F["ret"] = ex("p_fns p_fnm1 p_closs x_if x_match2 x_ifh x_elifh x_garm x_matchh s_ifh s_whileh a_leaf a_d s_ret s2_ret s3_ret sc_ret s_see v_leaf v_mk d_ret s_while s_loop s_if", 9 + b)
        F["scopes"] = ex("p_fns p_eclos p_nclos x_if a_leaf s_ret s_retu v_leaf s_clos s_closu s_async s_item s_itemb s_never s_see s_lelse d_ret d_retu s_kidclos t_ret t_blkret", 7 + b)
        F["expr"] = ex("p_fn p_fns p_clos x_if t_ret a_leaf a_e a_d v_e v_leaf e_leaf e_ifd e_matchd e_call e_calls e_bo d_ret d_retu d_semi d_let d_blk s_see s_ret", 9 + b)
        F["operands"] = ex("p_fns p_closs p_fnm1 x_if a_leaf v_leaf v_mk s_see s_if s_clos s_while s_loop so_ret so_retu sm_ret sr_ret sr_brk sb_ret", 7 + b, alts=3)
        F["items"] = ex("p_item i_ret i_nested i_const i_macro s_ret s_see s_item v_leaf x_if a_leaf t_ret", 12 + b)
        F["mixed"] = rnd(" ".join(["p_fn p_fns p_fnss p_fnm1 p_clos p_closs p_eclos p_nclos p_item p_fnlet p_fnlet1 p_fnlet2 p_fnlet3", TT, XX, AA, EX, DV, ND, VV, SS, LZ, II]), n, bound=16)
    elif prop == "C05":
        F["try"] = ex("p_try p_try2 q_let q_semi q_see q_if q_ife q_err q_errt q_while q_hd q_mhd q_meth q_nest q_qq q_idf q_blk q_kid tt_ok tt_oks tt_okq tt_if tt_err tt_mk tt_blk qt_ifs qt_ok2 qt_qq qt_qmq qt_qpq qt_match qt_loop s_see s_try", 5 + b)
        F["clos"] = ex("p_tclos p_ntclos q_let q_see q_errt q_nest tt_ok tt_okq tt_mk tt_match tt_ret s_tryc s_trya s_tryb d_reterr d_panic", 8 + b)
        F["scopes"] = ex("p_try2 s_tryc s_trya s_tryb s_tryif s_tryerr s_trys s_clos s_if s_item s_see qt_ok2 qt_ifs qt_loop q_let q_semi tt_ok tt_mk tt_if s_reterr s_ret s_never d_panic", 8 + b)
        F["path"] = ex("p_resn p_resne p_try rn_q rn_ret rn_s q_let q_see tt_ok tt_mk s_see s_tryc s_trya s_if s_reterr d_panic", 5 + b, alts=5)
        F["operands"] = ex("p_try2 p_tclos q_let q_semi tt_ok qt_ok2 s_see s_if s_while so_reterr sm_reterr sq_ret sq_reterr sq_brk sq_cont so_ret", 7 + b, alts=3)
        F["one"] = ex("p_fns p_closs x_if a_leaf s_see s_tryc s_trya s_tryb s_ret v_leaf p_try2 qt_ok2", 12 + b)
        F["mixed"] = rnd(" ".join([P3, QQ, SS, EX, DV, "d_none d_err", VV, "x_if x_match2 a_leaf a_d", LZ]), n, bound=16)
    elif prop == "C06":
        F["nest"] = ex("p_fn p_let p_nexpr x_if x_match2 a_leaf a_nest a_nlet a_nmeth a_nblk a_npar a_nlet2 a_nlet3 a_nidf a_nidf2 x_ifh x_garm a_e e_leaf e_val e_if s_see", 10 + b)
        F["where"] = ex("p_fn p_let x_if x_match2 a_leaf a_nuns a_nloop a_nlblk a_nif a_nmatch a_nbo a_ncall s_see", 7 + b)
        F["forms"] = ex("p_expr p_clos x_if x_match3 x_elif x_loop x_loopa x_blk x_sblk x_unsafe x_paren x_meth x_nlet a_nest a_leaf a_d d_panic s_see l_brk v_leaf", 7 + b)
        F["mix"] = ex("p_fns p_let x_if x_elif x_ifs a_nest a_nblk a_leaf a_mk a_never n_die a_d d_retu d_ret v_leaf e_leaf s_see a_kid x_match2", 9 + b)
        F["mixed"] = rnd(" ".join([P1, P2, XX, AA, "e_leaf e_if e_match e_call e_loop e_blk e_ifd", DV, ND, VV, "s_see s_if s_ret s_brk s_kid s_kidlet s_letif s_while s_clos", LZ, TT]), n, bound=16)
    elif prop == "C07":
        F["markers"] = ex("p_fn p_fns p_fnm1 p_let p_letm1 p_semi p_unit p_unitm t_mk x_if x_mklet a_mk a_leaf m_if m_match m_blk m_bo m_call m_mk m_d m_rec e_leaf e_val s_see s_val s_ret v_mk v_leaf d_panic", 9 + b)
        F["two"] = ex("p_fnlet p_fnlet1 p_fnlet2 p_fnlet3 p_2let p_2letm x_if x_match2 x_mklet a_leaf a_mk a_d m_if e_leaf s_ret d_ret v_mk v_leaf t_mk t_ret", 11 + b)
        F["kids"] = ex("p_fns p_fnm1 p_let x_if a_leaf a_mk a_kid a_kidm2 s_kid s_kidlet s_kidm2 s_kidclos s_ret v_leaf v_mk e_leaf t_ret s_see", 12 + b)
        F["bare"] = ex("p_2let p_2letm p_sexpr p_let x_if x_match2 x_blk a_leaf a_mk a_kid s_kid s_kidm2 s_kidlet e_leaf s_see", 10 + b)
        F["mixed"] = rnd(" ".join([P1, P2, "p_try p_tclos", XX, AA, "e_leaf e_if e_call e_bo e_loop e_blk", "d_ret d_brk d_panic d_retu", VV, "s_see s_if s_ret s_retu s_brk s_kid s_kidlet s_kidm2 s_kidclos s_clos s_async s_while s_loopa", LZ, TT, MK, "q_let q_semi q_kid tt_mk tt_ok"]), n, bound=16)
    elif prop == "C08":
        R = "loose"
        F["few"] = ex("r_fn r_let r_expr r_nlet r_empty r_unit r_try r_clos r_ann r_args r_largs r_uninit " + " ".join([WW, "u_leaf u_panic u_never u_unit u_if1 u_ret", "z_see z_ret"]), 4 + b, loose=True)
        F["attrs"] = ex("r_fns r_semi w_if w_match w_match1 w_leaf w_noelse w_mk0 " + " ".join([UU, ZZ]), 4 + b, loose=True)
        F["dup"] = ex("r_dupmk r_dupmk3 r_dupmk4 r_fnm1 w_if w_leaf u_leaf u_mk u_kidlet1 z_kidm1 z_see", 10 + b, loose=True)
        F["args"] = ex("r_args r_largs", 3 + b, loose=True)
        F["items"] = ex("r_item r_vals z_see z_val z_item", 4 + b, loose=True, alts=16)
        F["bad"] = rnd(" ".join([RR, WW, UU, ZZ]), n, bound=12, loose=True)
        F["good"] = rnd(ALL, n // 3, bound=14)
    elif prop == "C09":
        F["bare"] = ex("p_let p_letm1 p_expr p_sexpr p_l0 p_2let x_if x_match2 x_loopa l_brk a_leaf a_kid a_nest a_never n_die s_see s_if s_kid s_while s_clos s_ret v_leaf e_leaf", 8 + b)
        F["attrs"] = ex("p_fns p_closs x_if x_match3 a_leaf a_never a_nest a_nlet a_nmeth n_die n_if n_d n_loop d_panic d_retu s_never s_neverm s_see s_ret v_leaf s_kidlet d_matchn d_matchm a_d", 9 + b)
        F["items"] = ex("p_item p_fns p_sexpr i_ret i_nested i_const i_macro s_item s_itemb s_see s_ret v_leaf x_if x_match2 a_leaf d_item a_d t_ret", 14 + b)
        F["mixed"] = rnd(ALL, n, bound=16)
    elif prop == "C18":
        F["fn"] = ex("pt_fn pt_fns pt_fnm1 pt_noop pt_one x_if x_match2 x_loop a_leaf a_d a_mk l_brk s_ret s_see s_clos s_item s_kidta v_leaf v_mk e_leaf d_panic d_ret t_ret t_blkret", 8 + b, ta=True)
        F["let"] = ex("pt_let pt_letr pt_letf pt_letm pt_letD pt_unit x_if x_match3 x_loopa x_blk x_meth a_leaf a_d a_mk a_nest l_brk s_see s_kidta v_leaf e_leaf d_panic", 9 + b, ta=True)
        F["both"] = ex("pt_fnlet pt_fnlet1 pt_let pt_unit x_if x_match2 a_leaf a_mk s_ret s_see s_kidta s_kid s_kidlet v_leaf v_mk e_leaf t_mk t_ret", 11 + b, ta=True)
        F["try"] = ex("pt_try pt_try2 q_let q_semi q_see q_if q_err q_errt q_kid tt_ok tt_oks tt_okq tt_if tt_err tt_mk qt_ifs qt_ok2 qt_match s_see s_try s_kidta", 6 + b, ta=True)
        F["explicit"] = ex("p_fn p_fns p_fnm1 p_let p_expr p_sexpr p_clos p_semi p_2let p_fnlet x_if x_match2 a_leaf a_d e_leaf s_see s_ret v_leaf d_panic", 9 + b, ta=True)
        F["inferred"] = rnd(" ".join(["pt_fn pt_fns pt_fnm1 pt_noop pt_one pt_let pt_letr pt_letf pt_letm pt_letD pt_fnlet pt_fnlet1 pt_unit pt_try pt_try2 s_kidta", XX, AA, TT, EX, DV, ND, VV, SS, LZ, QQ]), n // 2, bound=16, ta=True)
        F["mixed"] = rnd(ALL + " s_kidta", n // 4, bound=16, ta=True)
    else:
        raise KeyError(prop)
    return F
