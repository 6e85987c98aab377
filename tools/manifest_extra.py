"""Checks other than C01-C09, for mkmanifest.py."""
_D = ("spec/Delegation.tla specifies the derived implementations as a transition system over events (user call, entry into the held value, callbacks, reply, result). "
      "TLC checks its invariants (only the active alternative, entered once, same method/argument/context, same result, same callbacks, never moved) and generates call histories: "
      "every method x argument x reply, every enum shape and alternative, all pairs of methods, random longer ones. Each history is run on the real derive with recording probes, and "
      "TLC checks every recorded trace against the same specification; provided methods must do to the held value exactly what they do to a bare one, event by event. ")
_B = "Bounded: enums of 1-4 alternatives in 4 shapes, replies and arguments from small sets, histories up to 9 calls. Trusts the probes (harness/deleg), rustc and TLC."
CHECKS = {
    p: ("TLA+ spec of the derived impls (Delegation.tla) checked with TLC; model-generated histories run on the real derives, recorded traces validated by TLC against the spec", _D + _B)
    for p in ("C10", "C11", "C12", "C16")
}
_E = ("spec/EnumDerive.tla specifies the catalogue of traits, the machine that resolves a list of trait names, which traits the enum has as a function of its fields, its Unpin-ness and "
      "which items are accepted. TLC explores {}; checks the specification's invariants and writes every case; each case is compiled with the real #[enum_derive] over probe types that "
      "implement exactly the traits, associated types and Unpin-ness the specification says, and what rustc then knows about the enum must equal the specification. ")
_T = "TLA+ spec of #[enum_derive] (EnumDerive.tla) checked with TLC; every generated case compiled with the real macro and compared with the specification"
for _p, _w, _l in (
        ("C13", "every trait alone and pairs of pinning and other traits, every assignment of Unpin to 1-3 fields, and six user-written Unpin/Drop implementations", "Fields are generic parameters."),
        ("C14", "every accepted spelling alone, every pair of names that share a meaning, random lists of 3-7 names, in five feature sets and four sets of external crates",
         "Lists do not repeat the same spelling. The traits whose prerequisites are known to be missing (known_findings.txt) are always listed with them, and alone as known findings."),
        ("C17", "every sequence of up to three variant kinds (and other items), eight item templates for every trait, random items (generics, defaults, bounds, where clauses, attributes, shadowed names)",
         "Fields without generic parameters only for traits without parameters (a limit of derive_utils)."),
        ("C19", "for every trait every combination over 1-3 fields of exactly-implementing, all-but-implementing and disagreeing field types", "Associated types differ one at a time; trait parameters range over two types.")):
    CHECKS[_p] = (_T, _E.format(_w) + _l + " Trusts rustc, TLC and the probes (harness/derive/probes.py).")
CHECKS["C18"] = (
    "TLA+ specs of the type analysis (TypeAnalysis.tla, AutoEnum.tla) checked with TLC; model-generated programs compiled and run with the real macro with feature type_analysis",
    "TypeAnalysisMC explores every name, related pairs and random types with 1-4 bounds (paths, dressed bounds, nested impl Trait, wrappers) with and without arguments; the traits the real enum implements must equal the "
    "specification's. The program families of AutoEnum.tla are run with inferred lists on functions and lets: no-ops, retries and errors must be the specified ones. Bounded as C01-C09; trusts rustc, TLC, renderers.")
CHECKS["C15"] = (
    "TLA+ spec of the Transpose methods (Transpose.tla) checked with TLC; model-generated call histories compiled and run with the real derive",
    "TLC explores every method, number of alternatives (1-4), active alternative and content, random chains of calls over nested Options/Results, availability of each method for every combination of simple types, and every item "
    "shape with up to 3 parameters/fields; invariants: nothing lost or invented, sides kept, well-typed. Values, result types, drops, acceptance and rejection of the real derive must equal the specification's. "
    "Inline bounds and attributes on the parameters are left unspecified. Trusts rustc, TLC, tools/transpose.py.")
CHECKS["C20"] = (
    "TLA+ spec of sites and names (Hygiene.tla, on EnumDerive.tla) checked with TLC; every generated pair of code and site compiled and run with the real macros",
    "TLC explores every derived trait and 41 forms of annotated code (23 of them with a part passed in by macro_rules) in nine kinds of crates (editions 2018-2024, std / no_std / no_std with extern crate std) surrounded by "
    "a declaration of every name in six groups, each at 13 places, and random combinations; invariants: a thing means the same at every site, no name of an expansion is looked up at the site. Each case is compiled with "
    "(in half of the cases) warnings denied; implemented traits and results must equal the specification's. Lower-case user constants, names starting with `__`, lifetime and statement fragments are outside. Trusts rustc, TLC and the probes.")
