------------------------------- MODULE Hygiene -------------------------------
(* Where the code an attribute is put on stands, and what the names in its expansion mean there.

   A site is a crate (its edition, whether the standard library is there), a place in it (module,
   function, method, closure, macro, ...), and the names the crate declares around it.  The names of
   an expansion are of three kinds: absolute paths, which start at the root of an external crate;
   names made by the macro, which nobody else knows; and tokens the user wrote, which mean what
   they mean where the user wrote them.  Hence an expansion means the same at every site, and a
   fragment passed in by macro_rules is what it would be if it were written there. *)
EXTENDS EnumDerive

Editions  == {"2018", "2021", "2024"}
Libraries == {"std", "no", "ext"}     \* std; #![no_std]; #![no_std] with extern crate std
Crates    == [ed : Editions, lib : Libraries]

------------------------------------------------------------------------------
(* Names that may be declared at the site.  ns: "type", "value", "macro", or "method" (an imported
   trait gives every type a method of that name) *)
Nm(ns, names) == {[ns |-> ns, name |-> x] : x \in names}
Groups == {"types", "traits", "values", "macros", "modules", "methods"}
Declares ==
  [types   |-> Nm("type", {"Option", "Result", "Box", "Vec", "String", "Pin", "Poll", "Context", "Formatter", "Arguments", "PhantomData",
                           "IoSlice", "IoSliceMut", "SeekFrom", "Ordering", "CoroutineState", "Bound", "Frame", "SizeHint", "ReadBuf"}),
   traits  |-> Nm("type", {"Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen", "IntoIterator", "FromIterator", "Extend",
                           "Future", "Fn", "FnMut", "FnOnce", "Sized", "Send", "Sync", "Unpin", "Drop", "Copy", "Clone", "Default", "From", "Into",
                           "AsRef", "AsMut", "Deref", "DerefMut", "Index", "IndexMut", "RangeBounds", "Debug", "Display", "Error", "Read", "BufRead",
                           "Write", "Seek", "Stream", "Sink", "Coroutine", "Serialize", "Serializer", "Consumer", "PartialEq", "Eq", "Hash"}),
   values  |-> Nm("value", {"Some", "None", "Ok", "Err", "Ready", "Pending", "drop"}) \cup Nm("type", {"Some", "None", "Ok", "Err", "Ready", "Pending"}),
   macros  |-> Nm("macro", {"matches", "vec", "format", "write", "assert", "debug_assert", "assert_eq", "todo", "unimplemented", "println", "panic", "unreachable"}),
   modules |-> Nm("type", {"core", "std", "alloc", "iter", "option", "result", "pin", "fmt", "io", "ops", "future", "task", "futures", "tokio", "rayon", "serde"}),
   methods |-> Nm("method", {"next", "next_back", "size_hint", "len", "fold", "rfold", "poll", "poll_next", "read", "write", "flush", "seek", "fmt", "write_str",
                             "as_ref", "as_mut", "deref", "deref_mut", "index", "index_mut", "call", "resume", "source", "description", "extend", "into_iter",
                             "serialize", "start_bound", "unwrap", "into", "project"})]

\* what a name that is looked up at the site (and not at the root of a crate) finds
Prelude == {"Option", "Result", "Box", "Vec", "String", "Some", "None", "Ok", "Err", "Iterator", "DoubleEndedIterator", "ExactSizeIterator", "Extend", "IntoIterator",
            "Fn", "FnMut", "FnOnce", "Sized", "Send", "Sync", "Unpin", "Drop", "Copy", "Clone", "Default", "From", "Into", "AsRef", "AsMut", "PartialEq", "Eq",
            "matches", "vec", "format", "write", "assert", "debug_assert", "println", "core", "std", "futures", "tokio", "rayon", "serde", "drop"}
NeedsAlloc == {"Box", "Vec", "String", "vec", "format", "println", "std"}
AtSite(site, ns, name) ==
  IF \E g \in site.decl : [ns |-> ns, name |-> name] \in Declares[g] THEN "user's"
  ELSE IF name \in Prelude /\ (site.cr.lib = "std" \/ name \notin NeedsAlloc) /\ ns # "method" THEN "prelude's"
  ELSE "unknown"
\* ... and what the root of an absolute path finds
AtRoot(site, root) == IF root = "std" /\ site.cr.lib = "no" THEN "unknown" ELSE "the crate " \o root

------------------------------------------------------------------------------
(* The code: a derived trait, or a form of annotated code *)
Io2 == {"AsyncRead", "AsyncBufRead", "AsyncWrite", "AsyncSeek"}
NeedsStd(n) == \/ Of[n].f \in {"std", "tokio01"} \/ \E c \in {"futures03", "tokio1", "tokio03", "tokio02"}, x \in Io2 : n = c \o "::" \o x
Roots(n) == UNION {IF Of[x].std THEN {"core"} ELSE {"core"} \cup (IF NeedsStd(x) THEN {"std"} ELSE {}) \cup (IF Of[x].w = "s" THEN {} ELSE {Of[x].f}) : x \in Closure(n)}

\* forms of annotated code, with the number of their alternatives
Forms == [match |-> 3, elseif |-> 3, letm |-> 3, expr |-> 3, loop |-> 3, label |-> 3, ret |-> 3, try |-> 3, clret |-> 3, cltry |-> 3, nested |-> 3, never |-> 2,
          marker |-> 3, cmarker |-> 3, child |-> 3, transp |-> 2, multi |-> 2, fut |-> 2]
\* ... written with fragments of a macro_rules macro: the form, and the kind of part that is passed in
Frags == [f_branch |-> 3, f_tail |-> 3, f_let |-> 3, f_closure |-> 3, f_loop |-> 3, f_ty |-> 3, f_resty |-> 3, f_errty |-> 3, f_block |-> 3, f_else |-> 3, f_pat |-> 3,
          f_panic |-> 2, f_return |-> 2, f_never |-> 2, f_marker |-> 3, f_nested |-> 3, f_nestin |-> 3, f_ret |-> 3, f_qop |-> 3, f_q |-> 3, f_break |-> 3, f_item |-> 3, f_ident |-> 3]
FormNames == DOMAIN Forms \cup DOMAIN Frags
\* code that must not be accepted anywhere: implementations next to a derived trait that pins, and annotations that have nothing to choose between
Refusals == [drop |-> "conflict", unpin |-> "conflict", r_one |-> "few", r_frag |-> "few", r_block |-> "few", r_type |-> "few"]
RefusalsOf(n) == IF Pinned(Closure(n)) THEN {"drop", "unpin"} ELSE {}
Alts(f) == IF f \in DOMAIN Forms THEN Forms[f] ELSE Frags[f]
\* the k-th alternative holds k
Value(f, k) == k

\* may this code stand there at all?
Places == {"module", "fn", "method", "traitm", "assoc", "generic", "closure", "const", "async", "unsafe", "macro", "submodule", "block"}
Names  == {"plain", "letters", "std", "assoc", "raw"}     \* what the user calls an enum, its parameters and variants
Valid(th, site) == th.n \in Canon /\ "std" \in Roots(th.n) => AtRoot(site, "std") # "unknown"
\* (the tools' own: async blocks are not in the 2015 edition, which is left out altogether)

------------------------------------------------------------------------------
(* The names of an expansion.  Uses: what the specification says; Relative: the same names as
   somebody might write them who does not think of the site. *)
Uses(th) == IF th.n \in Canon THEN {[q |-> "abs", root |-> r] : r \in Roots(th.n)} \cup {[q |-> "own", root |-> ""]}
            ELSE {[q |-> "abs", root |-> "core"], [q |-> "own", root |-> ""], [q |-> "user", root |-> ""]}
Means(u, site) == CASE u.q = "abs" -> AtRoot(site, u.root) [] u.q = "own" -> "own" [] u.q = "user" -> "as written"
Plain == [cr |-> [ed |-> "2021", lib |-> "std"], place |-> "module", decl |-> {}, nm |-> "plain", lint |-> FALSE]

\* what the compiler knows of the enum, or what running the alternatives gives, at a site
Outcome(th, site) ==
  IF \E u \in Uses(th) : Means(u, site) = "unknown" THEN <<"error">>
  ELSE IF th.k = "refused" THEN <<"refused", Refusals[th.x]>>
  ELSE IF th.k = "derive" THEN <<"has", Closure(th.n)>>
  ELSE <<"runs", [k \in 1..Alts(th.n) |-> Value(th.n, k)]>>
=============================================================================
