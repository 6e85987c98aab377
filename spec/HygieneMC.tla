------------------------------ MODULE HygieneMC ------------------------------
(* Puts every derived trait and every form of annotated code at sites chosen step by step. *)
EXTENDS Hygiene, Json, CSV, TLC
CONSTANTS Mode,      \* "each": every thing in every crate, everything declared around it; "places": every thing at every place; "random": anything
          World, OutFile
VARIABLES ph, th, site
vars == <<ph, th, site>>
Emit(x) == OutFile = "" \/ CSVWrite("%1$s", <<ToJson(x)>>, OutFile)
R1(X) == RandomElement(X)
Pick(X) == IF Mode = "random" THEN {R1(X)} ELSE X
Sometimes(a, X) == IF Mode = a THEN X ELSE {R1(X)}

Here    == {x \in Canon : Of[x].w = World \/ (World = "a" /\ Of[x].w = "s")}
Derived == {[k |-> "derive", n |-> n, x |-> ""] : n \in Here}
Code    == IF World = "a" THEN {[k |-> "code", n |-> f, x |-> ""] : f \in FormNames} ELSE {}
Refused == UNION {{[k |-> "refused", n |-> n, x |-> x] : x \in RefusalsOf(n)} : n \in Here}
             \cup IF World = "a" THEN {[k |-> "refused", n |-> x, x |-> x] : x \in {y \in DOMAIN Refusals : Refusals[y] = "few"}} ELSE {}
Things  == Derived \cup Code \cup Refused

Init == ph = "thing" /\ th = [k |-> "", n |-> "", x |-> ""] /\ site = Plain
ChooseThing == ph = "thing" /\ \E t \in Pick(Things) : th' = t /\ ph' = "crate" /\ UNCHANGED site
ChooseCrate == ph = "crate" /\ \E c \in Sometimes("each", Crates) : site' = [site EXCEPT !.cr = c] /\ ph' = "place" /\ UNCHANGED th
ChoosePlace == ph = "place" /\ \E p \in Sometimes("places", Places) : site' = [site EXCEPT !.place = p] /\ ph' = "declare" /\ UNCHANGED th
\* one group of names after the other
Declare == /\ ph = "declare"
           /\ IF Mode = "each" THEN site' = [site EXCEPT !.decl = Groups]
              ELSE \E g \in {R1(SUBSET Groups)} : site' = [site EXCEPT !.decl = g]
           /\ ph' = "names" /\ UNCHANGED th
ChooseNames == /\ ph = "names"
               /\ \E x \in {R1(Names)} : \E l \in {R1(BOOLEAN)} : site' = [site EXCEPT !.nm = x, !.lint = l]
               /\ ph' = "end" /\ UNCHANGED th
Finish == /\ ph = "end"
          /\ IF Valid(th, site) THEN Emit([th |-> th, site |-> site, decls |-> UNION {Declares[g] : g \in site.decl}, out |-> Outcome(th, site), up |-> IF th.n \in Canon THEN Closure(th.n) ELSE {}]) ELSE TRUE
          /\ ph' = "done" /\ UNCHANGED <<th, site>>
Next == ChooseThing \/ ChooseCrate \/ ChoosePlace \/ Declare \/ ChooseNames \/ Finish
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
\* the same thing means the same everywhere it can stand
SameEverywhere == ph = "end" /\ Valid(th, site) => Outcome(th, site) = Outcome(th, Plain)
\* no name of an expansion is looked up at the site
NothingFromSite == ph = "end" => \A u \in Uses(th) : u.q # "abs" \/ Means(u, site) \in {"unknown", "the crate " \o u.root}
\* a site with all groups of names tells a relative name from an absolute one, whatever the name
Telling == ph = "end" /\ site.decl = Groups => \A g \in Groups : \A d \in Declares[g] : AtSite(site, d.ns, d.name) = "user's"
\* a crate without std tells the names that are only in std's prelude
NoStdTelling == ph = "end" /\ site.cr.lib # "std" /\ site.decl = {} => \A n \in NeedsAlloc : AtSite(site, "type", n) = "unknown"
=============================================================================
