"""Contracts of the hand-written validation core: src/error.rs, src/parse_result.rs, src/validation.rs."""
import re
from .common import *

FAMS_ALL = ("ok", "cnt", "frame", "first")


def rel(fams, o, f, ff, OK, V, frame_guard=None):
    """clauses relating collector o (before) to f (after): OK = verdict spec, V(k) = count of key k"""
    out = []
    if "ok" in fams:
        out.append(f"rel_ok({o}, {f}, {ff}, {OK})")
    if "cnt" in fams:
        out.append(f"!{ff} ==> forall|k: VKey| #[trigger] cnt({f}.errs(), k) == cnt({o}.errs(), k) + ({V('k')})")
    if "frame" in fams:
        g = f"{frame_guard} ==> " if frame_guard else ""
        out.append(f"{g}rel_frame({o}, {f}, {ff})")
    if "first" in fams:
        out.append(f"rel_first({o}, {f}, {ff}, {OK}, ({V('vkey(' + f + '.errs().last())')}) >= 1)")
    return out


def clauses(kind, cl):
    return f"\n        {kind}\n" + "".join(f"            {c},\n" for c in cl) if cl else ""


OLD, FIN = "(*old(collector))", "(*final(collector))"


def collector_fields(text):
    m = re.search(r"struct\s+ErrorCollector\s*\{(.*?)\n\}", text, re.S)
    body = m.group(1) if m else ""
    fl = re.findall(r"(\w+)\s*:\s*([^,\n]+)", body)
    v = [n for n, t in fl if t.strip().replace(" ", "").startswith("Vec<ValidationError>")]
    b = [n for n, t in fl if t.strip() == "bool"]
    if len(v) == 1 and len(b) == 1 and len(fl) == 2:
        return v[0], b[0]
    return None


def contract_parse_result(fams, prop=None):
    S = {
        "ParserConfig::fail_fast": ["vx_r.fail_fast", "vx_r.validate_optional_fields", "!vx_r.collect_all_errors"],
        "ParserConfig::lenient": ["!vx_r.fail_fast", "!vx_r.validate_optional_fields", "!vx_r.collect_all_errors"],
        "<ParserConfig as Default>::default": ["!vx_r.fail_fast", "vx_r.validate_optional_fields", "vx_r.collect_all_errors"],
        "ErrorCollector::new": ["vx_r.errs() == Seq::<ValidationError>::empty()", "!vx_r.crit()"],
        "<ErrorCollector as Default>::default": ["vx_r.errs() == Seq::<ValidationError>::empty()", "!vx_r.crit()"],
        "ErrorCollector::add_error": ["final(self).errs() == old(self).errs().push(error)", "final(self).crit() == old(self).crit()"],
        "ErrorCollector::add_critical_error": ["final(self).errs() == old(self).errs().push(error)", "final(self).crit()"],
        "ErrorCollector::has_errors": ["vx_r == (self.errs().len() > 0)"],
        "ErrorCollector::has_critical_errors": ["vx_r == self.crit()"],
        "ErrorCollector::errors": ["vx_r@ == self.errs()"],
        "ErrorCollector::error_count": ["vx_r == self.errs().len()"],
        "ParseResult<T>::is_success": ["vx_r == (self is Success)"],
        "ParseResult<T>::is_failure": ["vx_r == (self is Failure)"],
        "ParseResult<T>::value": ["vx_r == match *self { ParseResult::Success(v) => Some(&v), ParseResult::PartialSuccess(v, _) => Some(&v), ParseResult::Failure(_) => None }"],
        "ParseResult<T>::errors": ["vx_r.len() == self.errs().len()", "forall|i: int| 0 <= i < vx_r.len() ==> *(#[trigger] vx_r[i]) == self.errs()[i]"],
        "ParseResult<T>::to_result": ["match self { ParseResult::Success(v) => vx_r == Ok::<T, Vec<ValidationError>>(v), ParseResult::PartialSuccess(v, _) => vx_r == Ok::<T, Vec<ValidationError>>(v), ParseResult::Failure(e) => vx_r == Err::<T, Vec<ValidationError>>(e) }"],
    }
    keep = {"C07": lambda k: not k.startswith("ErrorCollector::add"), "C03": lambda k: "Collector::" in k or "Collector as" in k, "C04": lambda k: "Collector" in k}
    base = {"ErrorCollector::add_error", "ErrorCollector::add_critical_error", "ErrorCollector::has_critical_errors", "ErrorCollector::has_errors", "ErrorCollector::new", "<ErrorCollector as Default>::default"}
    f = keep.get(prop, lambda k: k in base or k in ALSO) if prop else lambda k: True
    return {k: v for k, v in S.items() if f(k)}


ALSO = set()      # collector functions that the ones every property needs call, in the current source


def also_called(s):
    """contracts follow the calls: a method that a function under contract calls on itself is under contract too"""
    have = {f["path"]: f for f in s.fns if f["body"]}
    con, todo = contract_parse_result(()), [k for k in contract_parse_result((), "C01") if k in have]
    while todo:
        body = s.text.split(f"/*@A{have[todo.pop()]['id']}@*/", 1)[1].split("/*@A", 1)[0]
        for m in re.findall(r"(?:self\.|Self::)(\w+)\(", body):
            k = "ErrorCollector::" + m
            if k in con and k in have and k not in ALSO and k not in contract_parse_result((), "C01"):
                ALSO.add(k)
                todo.append(k)


CONTRACT_ERROR = {
    "ValidationError::new": ["vx_r.code == code", "vx_r.message == message", "vx_r.field is None", "vx_r.path is None"],
    "ValidationError::with_field": ["vx_r.code == self.code", "vx_r.message == self.message", "vx_r.field == Some(field)", "vx_r.path == self.path"],
    "ValidationError::with_path": ["vx_r.code == self.code", "vx_r.message == self.message", "vx_r.path == Some(path)", "vx_r.field == self.field"],
    "<MxError as From>::from": ["vx_r is Validation", "vx_r->code == err.code", "vx_r->message == err.message", "vx_r->field == err.field", "vx_r->path == err.path"],
}


def contract_error(prop):
    if prop is None or prop == "C07":
        return CONTRACT_ERROR
    if prop in ("C01", "C04"):
        return {}
    return {k: v for k, v in CONTRACT_ERROR.items() if k.startswith("ValidationError::")}


def contract_validation(fams, exact, prop=None):
    """fams: clause families for the callers; exact: the complete contract (C03)"""
    ff = "config.fail_fast"
    c = "collector"
    def F(a, g=None, V=None, OK=None):
        return rel(fams, OLD, FIN, ff, OK, V, g)
    S = {}
    st = f"({ff} && {OLD}.crit())"
    S["helpers::stopped"] = ["vx_r == (config.fail_fast && collector.crit())"]
    L = F(0, None, lambda k: f"vlen(value@, min, max, field_name@, path@, {k})", "ok_len(value@, min, max)")
    P = F(0, "re_ok(pattern@)", lambda k: f"vpat(value@, pattern@, field_name@, path@, {k})", "ok_pat(value@, pattern@)")
    R = []
    if exact:
        keys = f"len_keys(value@, min, max, field_name@, path@, {ff})"
        L += [f"{st} ==> !vx_r && {FIN} == {OLD}", f"!{st} ==> vx_r == (!short(value@, min) && !long(value@, max))",
              f"!{st} ==> appended({OLD}.errs(), {FIN}.errs(), {keys})",
              f"!{st} ==> {FIN}.crit() == ({OLD}.crit() || ({ff} && {keys}.len() > 0))"]
        keys = "pat_keys(value@, pattern@, field_name@, path@)"
        P += [f"{st} ==> !vx_r && {FIN} == {OLD}", f"!{st} ==> vx_r == (re_ok(pattern@) && full_match(pattern@, value@))",
              f"!{st} ==> appended({OLD}.errs(), {FIN}.errs(), {keys})",
              f"!{st} ==> {FIN}.crit() == ({OLD}.crit() || !re_ok(pattern@) || ({ff} && !full_match(pattern@, value@)))"]
        R = [f"{st} ==> !vx_r && {FIN} == {OLD}", f"!{st} ==> vx_r == (value is Some)",
             f"!{st} ==> appended({OLD}.errs(), {FIN}.errs(), if value is Some {{ seq![] }} else {{ seq![mk(1003, field_name@, path@)] }})",
             f"!{st} ==> {FIN}.crit() == ({OLD}.crit() || value is None)"]
    S["helpers::validate_length"] = L
    S["helpers::validate_pattern"] = P
    if prop == "C04":
        O, N = OLD, FIN
        R = [f"{N}.errs().len() >= {O}.errs().len()", f"forall|i: int| 0 <= i < {O}.errs().len() ==> {N}.errs()[i] == {O}.errs()[i]",
             f"{N}.crit() == ({O}.crit() || {N}.errs().len() > {O}.errs().len())"]
        P.append(f"!re_ok(pattern@) ==> {N}.errs().len() >= {O}.errs().len() && forall|i: int| 0 <= i < {O}.errs().len() ==> {N}.errs()[i] == {O}.errs()[i]")
    S["helpers::validate_required"] = R
    if prop is None or exact or "cnt" in fams or "first" in fams:
        S["helpers::child_path"] = ["vx_r@ =~= cpath(parent@, field@)"]
    return S


PRO_HELPER = " proof { reveal(ok_len); reveal(ok_pat); reveal(vlen); reveal(vpat); reveal(cpath); reveal(rel_ok); reveal(rel_frame); reveal(rel_first); reveal_strlit(\".\"); } broadcast use {crate::vx::cnt_push, crate::vx::push_drop, crate::rt::cat, crate::rt::str_bound}; "


LEMDECL = """
    proof fn lem_mono(&self, p: Seq<char>, k: VKey) ensures self.viols(p, false, k) <= self.viols(p, true, k);
"""


def trait_text(fams, lemmas=False):
    t = (LEMDECL if lemmas else "") + "\n    spec fn ok(&self, opt: bool) -> bool;\n    spec fn viols(&self, p: Seq<char>, opt: bool, k: VKey) -> nat;\n"
    cl = rel(fams, OLD, FIN, "config.fail_fast", "self.ok(config.validate_optional_fields)",
             lambda k: f"self.viols(path@, config.validate_optional_fields, {k})")
    return t, clauses("ensures", cl)


CORE_KNOWN = sorted({**CONTRACT_ERROR, **contract_parse_result(FAMS_ALL), **contract_validation(FAMS_ALL, True)})


def core_sources():
    q = lambda f, drop: {"file": f"{REPO}/src/{f}.rs", "drop": drop, "keep_fns": [], "log": [], "fmt": True, "known": CORE_KNOWN}
    ex = extract([q("error", ["MxError", "impl From", "use thiserror"]), {**q("parse_result", []), "derived": True}, q("validation", [])])
    also_called(Src("parse_result", "src/parse_result.rs", ex[1]))
    return [Src("error", "src/error.rs", ex[0]), Src("parse_result", "src/parse_result.rs", ex[1]), Src("validation", "src/validation.rs", ex[2])]


def weave_src(s, contracts, ext=None, extra=None, pro="", indent_use="use vstd::prelude::*; use crate::vx::*;", report=None):
    """ext: set of fn ids to be external_body (None = none, 'all')"""
    ins = dict(extra or {})
    for f in s.fns:
        i = str(f["id"])
        c = contracts.get(f["path"])
        if c is None and f["trait"] is None and report is not None and f["body"]:
            report.append(f)
        if c:
            ins[("S", i)] = ins.get(("S", i), "") + clauses("ensures", c)
        if f["body"] and (ext == "all" or (ext and f["id"] in ext)):
            ins[("A", i)] = "#[verifier::external_body] "
        elif f["body"]:
            ins[("P", i)] = pro + ins.get(("P", i), "")
    ins.setdefault(("M", "helpers"), "\n    use vstd::prelude::*; use crate::vx::*; use crate::regex;\n")
    body = weave(s.text, ins)
    return f"/*vxmod:{s.name}*/\npub mod {s.name} {{\n{indent_use}\n{body}\n/*vxspec:*/\n}}\n"


def core_text(srcs, fams, exact, ext, prop=None, report=None, lemmas=False):
    """text of the three core modules. ext: 'all' or {module: set(ids)}"""
    out = read(CONTRACTS, "rt.rs") + read(CONTRACTS, "spec.rs")
    err, pr, va = srcs
    e = lambda s: ext if ext == "all" else ext.get(s.name)
    out += weave_src(err, contract_error(prop), e(err), report=report)
    cfm = collector_fields(pr.text)
    extra = {}
    if cfm:
        extra[("M", "ErrorCollector")] = f"\n    pub closed spec fn errs(self) -> Seq<ValidationError> {{ self.{cfm[0]}@ }}\n    pub closed spec fn crit(self) -> bool {{ self.{cfm[1]} }}\n"
    else:
        extra[("M", "ErrorCollector")] = "\n    pub uninterp spec fn errs(self) -> Seq<ValidationError>;\n    pub uninterp spec fn crit(self) -> bool;\n"
    extra[("M", "ParseResult<T>")] = "\n    pub open spec fn errs(self) -> Seq<ValidationError> { match self { ParseResult::Success(_) => Seq::empty(), ParseResult::PartialSuccess(_, e) => e@, ParseResult::Failure(e) => e@ } }\n"
    out += weave_src(pr, contract_parse_result(fams, prop), e(pr), extra, report=report)
    tt, tc = trait_text(fams, lemmas)
    extra = {("T", "Validate"): tt}
    for f in va.fns:
        if f["path"] == "Validate::validate":
            extra[("S", str(f["id"]))] = tc
    out += weave_src(va, contract_validation(fams, exact, prop), e(va), extra, PRO_HELPER, report=report)
    return out


HEAD = "#![allow(unused, dead_code, non_snake_case, non_camel_case_types)]\nuse vstd::prelude::*;\nverus! {\n"
TAIL = "\n}\n"
