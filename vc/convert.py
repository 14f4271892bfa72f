"""C07: parse results, parser configurations and error values."""
from .unit import *
from .core import CORE_KNOWN, contract_error, contract_parse_result, collector_fields
from .report import Report
from . import harness

STUBS = """
/*vxmod:serde_json*/ pub mod serde_json { use vstd::prelude::*; pub struct Error { pub x: u8 } }
/*vxmod:cop*/ pub mod cop { use vstd::prelude::*; pub open spec fn copied<A>(v: Vec<&A>, s: Seq<&A>, n: int) -> bool { v@.len() == n && forall|j: int| 0 <= j < n ==> *(#[trigger] v@[j]) == *s[j] } }
/*vxmod:ioe*/ pub mod ioe { use vstd::prelude::*; #[verifier::external_type_specification] #[verifier::external_body] pub struct ExIoError(std::io::Error); }
"""
FROM = """
/*vxmod:vx_from*/ pub mod vx_from { use vstd::prelude::*; use crate::error::*;
    /// the conversion of C07: nothing is lost
    impl vstd::std_specs::convert::FromSpecImpl<ValidationError> for MxError {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: ValidationError) -> MxError { MxError::Validation { code: v.code, message: v.message, field: v.field, path: v.path } }
    }
    /*vxspec:*/
}
"""
LAWS = """
/*vxmod:vx_c07*/ pub mod vx_c07 { use vstd::prelude::*; use crate::error::*; use crate::parse_result::*;
    /*vxspec:lemma c07*/
    /// exactly one of the three holds, and the accessors of one result agree with each other
    pub proof fn law<T>(r: ParseResult<T>)
        ensures !((r is Success) && (r is Failure)), !(r is Success) && !(r is Failure) ==> r is PartialSuccess,
            r is Success ==> r.errs().len() == 0,
    { }
    /*vxspec:*/
}
"""


def sources():
    q = lambda f, drop: {"file": f"{REPO}/src/{f}.rs", "drop": drop, "keep_fns": [], "log": [], "fmt": True, "io": True, "known": CORE_KNOWN}
    ex = extract([q("error", ["use thiserror"]), {**q("parse_result", []), "derived": True}])
    return [Src("error", "src/error.rs", ex[0]), Src("parse_result", "src/parse_result.rs", ex[1])]


def vec_inv(src, f, l):
    """a walk that copies a list"""
    i = l["id"]
    if l.get("kind"):
        return None
    vs = re.findall(r"let\s+mut\s+(\w+)\s*(?::\s*Vec[^=]*)?=\s*(?:Vec::|vec!)", f["src"])
    s = f"vx_it{i}.seq()"
    return {"inv": [f"crate::cop::copied({v}, {s}, vx_it{i}.index@)" for v in vs]}


def make():
    srcs = sources()
    err, pr = srcs
    cf = collector_fields(pr.text)
    m = "\n    pub closed spec fn errs(self) -> Seq<ValidationError> { self.%s@ }\n    pub closed spec fn crit(self) -> bool { self.%s }\n" % cf if cf else \
        "\n    pub uninterp spec fn errs(self) -> Seq<ValidationError>;\n    pub uninterp spec fn crit(self) -> bool;\n"
    extra = {"parse_result": {("M", "ErrorCollector"): m,
             ("M", "ParseResult<T>"): "\n    pub open spec fn errs(self) -> Seq<ValidationError> { match self { ParseResult::Success(_) => Seq::empty(), ParseResult::PartialSuccess(_, e) => e@, ParseResult::Failure(e) => e@ } }\n"}}
    ce = {k: {"ens": v} for k, v in contract_error("C07").items() if " as " not in k}
    ce["<MxError as From>::from"] = {"ens": []}
    cp = {k: {"ens": v} for k, v in contract_parse_result((), "C07").items()}
    cp["<ErrorCollector as Default>::default"]["opt"] = True      # derived today
    return Unit("convert", srcs, {"error": ce, "parse_result": cp}, head=read(CONTRACTS, "rt.rs") + read(CONTRACTS, "strs.rs") + STUBS, tail=FROM + LAWS, inv=vec_inv, extra=extra,
                uses="use vstd::prelude::*; use crate::serde_json; use crate::regex; use crate::strs::*;", mods=["vx_from", "vx_c07", "rt", "strs"])


def err_of(i):
    return [1000 + i, f"m{i}é", None if i % 3 == 0 else f"F{i}", None if i % 2 else f"P{i}"]


def hunt(deep=False):
    b = harness.build()
    cases = [{"op": "configs"}]
    for n in list(range(0, 40 if not deep else 400)) :
        for k in "SPF":
            cases.append({"op": "presult", "kind": k, "v": n * 7 - 3, "errs": [err_of((n * 31 + i) % 97) for i in range(n)]})
    for f in (None, "", "F", "é" * 300):
        for p in (None, "", "A.B"):
            for m in ("", "x", "ü" * 50):
                for code in (0, 1, 1005, 4294967295):
                    for order in ("fp", "pf", "ffpp"):
                        cases.append({"op": "verror", "code": code, "message": m, "field": f, "path": p, "order": order})
    out = []
    for c, a in zip(cases, harness.run(b, cases)):
        why = judge(c, a)
        if why:
            out.append({"case": c, "answer": a, "why": why})
    return out, len(cases)


def judge(c, a):
    if "panic" in a:
        return "panic: " + a["panic"]
    if c["op"] == "configs":
        want = {"default": [False, True, True], "fail_fast": [True, True, False], "lenient": [False, False, False], "new": [0, False, False], "coll_default": [0, False, False]}
        return None if a == want else f"configurations are {a}"
    if c["op"] == "presult":
        k, e = c["kind"], c["errs"]
        w = {"success": k == "S", "failure": k == "F", "value": None if k == "F" else c["v"], "errors": [] if k == "S" else e, "same": True,
             "result": {"Err": e} if k == "F" else {"Ok": c["v"]}}
        return None if a == w else f"{k} with {len(e)} errors: {[x for x in w if a.get(x) != w[x]]} wrong"
    w = [c["code"], c["message"], c["field"], c["path"]]
    if a.get("fields") != w:
        return f"builder gives {a.get('fields')} for {w}"
    if a.get("mx") != w:
        return f"conversion gives {a.get('mx')} for {w}"
    return None


def check(prop, tier):
    rep = Report(prop, tier)
    deadline = time.time() + (500 if tier == "quick" else 2000)
    [(u, o)] = verify(lambda: [make()], prop, deadline)
    rep.assumptions += ["vstd's contracts of Vec and Option", "the derived Clone/PartialEq are not part of the extracted text; the harness runs them when the search runs",
                        "thiserror's derived Display and From impls are not part of the extracted text"]
    return conclude(rep, [(u, o)], hunt, tier)
