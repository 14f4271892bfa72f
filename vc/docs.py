"""Contracts of the generated schema modules: one specification per type, derived from the committed facet table."""
from .core import *

TABLE = json.loads(read(CONTRACTS, "schema.json"))
W = {"Option": "O", "Vec": "V", "Box": "B"}


def lit(s):
    return json.dumps(s).replace("\\u007f", "\\u{7f}") + "@"


def optlit(x):
    return "None" if x is None else f"Some({x})"


def module_list():
    out = []
    for d in ("document", "header"):
        for f in sorted(os.listdir(f"{REPO}/src/{d}")):
            if f.endswith(".rs") and f != "mod.rs":
                out.append((f"{d}::{f[:-3]}", f"src/{d}/{f}"))
    return out


class Undecided(Exception):
    pass


def wrap_spec(e, w, leaf, gate, zero, n=0, top=True):
    if w == "":
        return leaf(e, False)
    if w[0] == "B":
        return wrap_spec(f"(*{e})", w[1:], leaf, gate, zero, n, False)
    if w[0] == "O":
        v = f"v{n}"
        inner = wrap_spec(v, w[1:], leaf, gate, zero, n + 1, False)
        if gate and top:
            inner = f"if opt {{ {inner} }} else {{ {zero} }}"
        return f"(match {e} {{ Some({v}) => {inner}, None => {zero} }})"
    if w in ("V", "VB"):
        return leaf(e, True)
    raise Undecided("shape " + w)


def field_table(mod, ty):
    return TABLE.get(mod, {}).get(ty)


def derived_table(schema):
    """the facets the code itself names, in the format of the facet table (C06 compares runs of the same code, so any
    such list will do)"""
    out = {}
    for ty, t in schema["types"].items():
        if t["kind"] == "enum":
            out[ty] = "enum"
            continue
        rows = []
        for f in t["fields"]:
            ren = [x[1] for x in f["serde"] if x[0] == "rename"]
            fa = []
            for x in f["facets"]:
                if x["k"] == "rec":
                    fa.append(["rec", x["path"], x["gate"]])
                elif x["k"] == "len":
                    fa.append(["len", x["min"], x["max"], x["name"], x["path"], x["gate"]])
                else:
                    fa.append(["pat", x["re"], x["name"], x["path"], x["gate"]])
            rows.append([f["n"], ren[0] if ren else f["n"], "", f["base"], fa])
        out[ty] = rows
    return out


def derived_specs(code, tab):
    terms = []
    if tab == "enum":
        return terms
    for f, row in zip(code["fields"], tab):
        w = "".join(W[x] for x in f["wrap"])
        e = f"x.{f['n']}"
        for x in row[4]:
            g = lambda s, z: f"(if opt {{ {s} }} else {{ {z} }})" if x[-1] else s
            if x[0] == "rec":
                P = f"cpath(p, {lit(x[1])})"
                terms.append((f["n"], "rec", g(wrap_spec(e, w, lambda e, l: f"all_rec({e}@, opt)" if l else f"{e}.ok(opt)", False, "true"), "true"),
                              g(wrap_spec(e, w, lambda e, l: f"sum_rec({e}@, {P}, opt, k)" if l else f"{e}.viols({P}, opt, k)", False, "0nat"), "0nat")))
                continue
            a = f"{optlit(x[1])}, {optlit(x[2])}" if x[0] == "len" else lit(x[1])
            N, P, K = lit(x[-3]), f"cpath(p, {lit(x[-2])})", x[0]
            terms.append((f["n"], K, g(wrap_spec(e, w, lambda e, l: f"all_{K}({e}@, {a})" if l else f"ok_{K}({e}@, {a})", False, "true"), "true"),
                          g(wrap_spec(e, w, lambda e, l: f"sum_{K}({e}@, {a}, {N}, {P}, k)" if l else f"v{K}({e}@, {a}, {N}, {P}, k)", False, "0nat"), "0nat")))
    return terms


def type_specs(mod, ty, code, types, derived=None):
    """terms (field, facet kind, verdict spec, count spec) for one type; code = current fields from the schema of the source"""
    if derived is not None:
        return derived_specs(code, derived[ty])
    tab = field_table(mod, ty)
    if tab is None:
        raise Undecided("type not in the facet table")
    if code["kind"] == "enum":
        if tab != "enum":
            raise Undecided("struct became enum")
        return []
    if tab == "enum":
        raise Undecided("enum became struct")
    by_id = {f[0]: f for f in tab}
    by_xml = {f[1]: f for f in tab}
    used, terms = set(), []
    for f in code["fields"]:
        ren = [x[1] for x in f["serde"] if x[0] == "rename"]
        row = by_id.get(f["n"]) or (by_xml.get(ren[0]) if ren else None)
        w = "".join(W[x] for x in f["wrap"])
        e = f"x.{f['n']}"
        if row is not None:
            used.add(row[0])
            xml, facets = row[1], [x for x in row[4] if x[0] != "rec"]
        else:
            xml, facets = (ren[0] if ren else f["n"]), []
        P = f"cpath(p, {lit(xml)})"
        if f["base"] in types:
            if facets:
                raise Undecided("facet on a complex field")
            terms.append((f["n"], "rec", wrap_spec(e, w, lambda e, l: f"all_rec({e}@, opt)" if l else f"{e}.ok(opt)", True, "true"),
                          wrap_spec(e, w, lambda e, l: f"sum_rec({e}@, {P}, opt, k)" if l else f"{e}.viols({P}, opt, k)", True, "0nat")))
            continue
        if facets and f["base"] != "String":
            raise Undecided("facet field is not a String")
        N = lit(xml)
        for x in facets:
            if x[0] == "len":
                a = f"{optlit(x[1])}, {optlit(x[2])}"
                terms.append((f["n"], "len", wrap_spec(e, w, lambda e, l: f"all_len({e}@, {a})" if l else f"ok_len({e}@, {a})", False, "true"),
                              wrap_spec(e, w, lambda e, l: f"sum_len({e}@, {a}, {N}, {P}, k)" if l else f"vlen({e}@, {a}, {N}, {P}, k)", False, "0nat")))
            else:
                a = lit(x[1])
                terms.append((f["n"], "pat", wrap_spec(e, w, lambda e, l: f"all_pat({e}@, {a})" if l else f"ok_pat({e}@, {a})", False, "true"),
                              wrap_spec(e, w, lambda e, l: f"sum_pat({e}@, {a}, {N}, {P}, k)" if l else f"vpat({e}@, {a}, {N}, {P}, k)", False, "0nat")))
    missing = [r[0] for r in tab if r[0] not in used and r[4]]
    if missing:
        raise Undecided("constrained fields missing: " + ", ".join(missing))
    return terms


def loop_inv(fams, loop, need_ok, need_v):
    n, vec = loop["id"], loop["vec"]
    c0 = f"vx_c{n}"
    ghost = f"let ghost {c0} = *collector; proof {{ "
    if "ok" in fams:
        ghost += f"rf_ok({c0}, config.fail_fast); "
    if "frame" in fams:
        ghost += f"rf_frame({c0}, config.fail_fast); "
    if "first" in fams:
        ghost += f"assert(forall|w: bool| rel_first({c0}, {c0}, config.fail_fast, true, w)) by {{ reveal(rel_first); }} "
    ghost += "} "
    if vec is None or loop.get("contrib") is None:
        return ghost, None
    it = f"{vec}.take(vx_it{n}.index@)"
    oks, vs = [], []
    for c in loop["contrib"]:
        g = lambda s, z: f"(if config.validate_optional_fields {{ {s} }} else {{ {z} }})" if c["gate"] else s
        if c["k"] == "rec":
            oks.append(g(f"all_rec({it}, config.validate_optional_fields)", "true"))
            vs.append(g(f"sum_rec({it}, {c['path']}, config.validate_optional_fields, K)", "0nat"))
        elif c["k"] == "len":
            oks.append(g(f"all_len({it}, {c['min']}, {c['max']})", "true"))
            vs.append(g(f"sum_len({it}, {c['min']}, {c['max']}, {c['name']}, {c['path']}, K)", "0nat"))
        else:
            oks.append(g(f"all_pat({it}, {c['re']})", "true"))
            vs.append(g(f"sum_pat({it}, {c['re']}, {c['name']}, {c['path']}, K)", "0nat"))
    OK = " && ".join(oks) or "true"
    V = lambda k: " + ".join(v.replace("K)", k + ")") for v in vs) or "0nat"
    return ghost, clauses("invariant", rel(fams, c0, "(*collector)", "config.fail_fast", OK, V))


RELREV = " reveal(rel_ok); reveal(rel_frame); reveal(rel_first);"
FF, OPT = "config.fail_fast", "config.validate_optional_fields"
CHUNK = 4


def own_terms(f, terms):
    """which facet terms each top-level statement of f names (syntactically); None = do not outline"""
    idx = {}
    for n, (fld, kind, _, _) in enumerate(terms):
        idx.setdefault((fld, kind), []).append(n)
    seen, out = set(), []
    for st in f["stmts"]:
        if re.match(r"\s*(let|return)\b", st) or re.search(r"\breturn\b|\?\s*[;.)]", st):
            return None
        flds = list(dict.fromkeys(re.findall(r"self\s*\.\s*(\w+)", st)))
        kinds = [k for k, p in (("rec", r"\.\s*validate\s*\("), ("len", r"validate_length\s*\("), ("pat", r"validate_pattern\s*\(")) if re.search(p, st)]
        mine = [n for a in flds for k in kinds if (a, k) not in seen for n in idx.get((a, k), [])]
        seen.update((a, k) for a in flds for k in kinds)
        out.append(mine)
    return out


def term_rel(fams, o, d, ty, own):
    K = " && ".join(f"{ty}_k{t}(*self, {OPT})" for t in own) or "true"
    N = lambda k: " + ".join(f"{ty}_n{t}(*self, path@, {OPT}, {k})" for t in own) or "0nat"
    return K, N, rel(fams, o, d, FF, K, N)


def reveals(ty, own):
    return "".join(f" reveal({ty}_k{n}); reveal({ty}_n{n});" for n in own)


def outline(text, f, ty, terms, fams, ins):
    """Split a long body into consecutive runs of its own statements, each a method with the same parameters, so that
    every run is checked against its own share of the specification. Returns (text, parts) or (text, None)."""
    i = str(f["id"])
    own = own_terms(f, terms) if len(terms) > CHUNK else None
    names = [p[0] for p in f["params"]]
    if own is None or names != ["self", "path", "config", "collector"]:
        ins[("P", i)] = f" proof {{ vx_pats(); reveal({ty}_ok); reveal({ty}_v);{reveals(ty, range(len(terms)))}{RELREV} }} "
        return text, None
    a = text.index(f"/*@P{i}@*/") + len(f"/*@P{i}@*/")
    e = text.index(f"/*@E{i}@*/")
    cuts = [text.index(f"/*@D{i}.{n}@*/") for n in range(len(f["stmts"]))]
    chunks, lo, cur = [], a, []
    for n, c in enumerate(cuts):
        if cur and len(cur) + len(own[n]) > CHUNK:
            chunks.append((lo, cuts[n - 1], cur))
            lo, cur = cuts[n - 1], []
        cur = cur + own[n]
    chunks.append((lo, e, cur))
    parts, calls = [], "\n let ghost vx_d0 = *collector; let ghost vx_a0 = true; proof {"
    if "ok" in fams:
        calls += f" rf_ok(vx_d0, {FF});"
    if "frame" in fams:
        calls += f" rf_frame(vx_d0, {FF});"
    if "first" in fams:
        calls += f" rf_first(vx_d0, {FF}, {ty}_v(*self, path@, {OPT}, vkey(vx_d0.errs().last())) >= 1);"
    calls += " }\n"
    for m, (x, y, mine) in enumerate(chunks):
        _, _, cl = term_rel(fams, OLD, FIN, ty, mine)
        parts.append(f"/*vxfn:{i}*/ impl {ty} {{ #[verifier::loop_isolation(true)] fn vx_part_{m}(&self, path: &str, config: &ParserConfig, collector: &mut ErrorCollector){clauses('ensures', cl)} {{ proof {{ vx_pats();{reveals(ty, mine)}{RELREV} }} {text[x:y]} }} }}")
        o, d = f"vx_d{m}", f"vx_d{m + 1}"
        K, N, _ = term_rel(fams, o, d, ty, mine)
        calls += f" self.vx_part_{m}(path, config, collector); let ghost {d} = *collector; let ghost vx_a{m + 1} = vx_a{m} && ({K}); proof {{"
        if "ok" in fams:
            calls += f" tr_ok(vx_d0, {o}, {d}, {FF}, vx_a{m}, {K});"
        if "frame" in fams:
            calls += f" tr_frame(vx_d0, {o}, {d}, {FF});"
        if "first" in fams:
            T = lambda c: f"{ty}_v(*self, path@, {OPT}, vkey({c}.errs().last())) >= 1"
            w = N(f"vkey({d}.errs().last())") + " >= 1"
            parts.append(f"proof fn {ty}_up{m}(x: {ty}, p: Seq<char>, opt: bool, k: VKey) ensures ({' + '.join(f'{ty}_n{t}(x, p, opt, k)' for t in mine) or '0nat'}) >= 1 ==> {ty}_v(x, p, opt, k) >= 1 {{ reveal({ty}_v); }}")
            calls += f" {ty}_up{m}(*self, path@, {OPT}, vkey({d}.errs().last())); tr_first(vx_d0, {o}, {d}, {FF}, vx_a{m}, {K}, {T(o)}, {w}, {T(d)});"
        calls += " }\n"
    ins[("P", i)] = f" proof {{ reveal({ty}_ok);{f' reveal({ty}_v);' if 'cnt' in fams else ''} }} "
    return text[:a] + calls + text[e:], parts


def gen_module(src, fams, ext=(), lemmas=None, derived=None):
    """returns (text, info). info: functions under contract, undecided reasons per type"""
    mod = src.name
    types = src.schema["types"]
    ins, tail = {}, []
    info = {"contract": [], "undecided": {}, "weak": set(), "extern": [], "outlined": {}}
    woven = src.text
    pats = set()
    specs = {}
    for ty in src.schema["order"]:
        try:
            specs[ty] = type_specs(mod, ty, types[ty], types, derived)
        except Undecided as u:
            info["undecided"][ty] = str(u)
            specs[ty] = None
    for t in TABLE.get(mod, {}):
        if t not in types and derived is None:
            info["undecided"][t] = "type missing"
    impl_types = set()
    for f in src.fns:
        i = str(f["id"])
        if f["trait"] == "Validate" and f["path"].endswith("::validate"):
            ty = f["self"]
            impl_types.add(ty)
            sp = specs.get(ty)
            if sp is None:
                LX = "".join(f"    #[verifier::external_body] {l.strip()[:-1]} {{}}\n" for l in LEMDECL.strip().split("\n")) if lemmas else ""
                ins[("M", f"<{ty} as Validate>")] = LX + "\n    uninterp spec fn ok(&self, opt: bool) -> bool; uninterp spec fn viols(&self, p: Seq<char>, opt: bool, k: VKey) -> nat;\n"
                ins[("A", i)] = "#[verifier::external_body] "
                info["extern"].append(f["id"])
                continue
            L = f"\n/*vxspec:lemma {ty}*/    proof fn lem_mono(&self, p: Seq<char>, k: VKey) {{ {ty}_mono(*self, p, k); assert(self.viols(p, false, k) == {ty}_v(*self, p, false, k)); assert(self.viols(p, true, k) == {ty}_v(*self, p, true, k)); }}\n" if lemmas else ""
            ins[("M", f"<{ty} as Validate>")] = L + f"\n    open spec fn ok(&self, opt: bool) -> bool {{ {ty}_ok(*self, opt) }}\n    open spec fn viols(&self, p: Seq<char>, opt: bool, k: VKey) -> nat {{ {ty}_v(*self, p, opt, k) }}\n"
            # a function the verifier rejects keeps its body in one piece: none of it is verified
            woven, parts = (woven, None) if f["id"] in ext else outline(woven, f, ty, sp, fams, ins)
            if parts:
                tail += parts
                info["outlined"][f["id"]] = len(parts)
            if f["id"] in ext:
                ins[("A", i)] = "#[verifier::external_body] "
                info["extern"].append(f["id"])
            else:
                info["contract"].append(f["id"])
            for l in f["loops"]:
                if l["id"] is None:
                    info["weak"].add(f["id"])
                    continue
                g, inv = loop_inv(fams, l, True, True)
                ins[("G", str(l["id"]))] = g
                ins[("B", str(l["id"]))] = " proof { vx_pats(); reveal(rel_ok); reveal(rel_frame); reveal(rel_first); } "
                if inv is None:
                    info["weak"].add(f["id"])
                else:
                    ins[("L", str(l["id"]))] = inv
        elif f["trait"] is None and f["body"]:
            # helper without a contract of its own: verified callers know nothing about it
            info["undecided"]["fn " + f["path"]] = "function without contract"
            if f["id"] in ext:
                ins[("A", i)] = "#[verifier::external_body] "
    for ty in src.schema["order"]:
        sp = specs[ty]
        if sp is None:
            continue
        if ty not in impl_types:
            info["undecided"][ty] = "no Validate impl"
            continue
        tail.append(f"/*vxspec:{ty}*/")
        for n, (_, _, o, v) in enumerate(sp):
            tail.append(f"#[verifier::opaque] pub open spec fn {ty}_k{n}(x: {ty}, opt: bool) -> bool {{ {o} }}")
            tail.append(f"#[verifier::opaque] pub open spec fn {ty}_n{n}(x: {ty}, p: Seq<char>, opt: bool, k: VKey) -> nat {{ {v} }}")
        R = range(len(sp))
        tail.append(f"#[verifier::opaque] pub open spec fn {ty}_ok(x: {ty}, opt: bool) -> bool {{ {' && '.join(f'{ty}_k{n}(x, opt)' for n in R) or 'true'} }}")
        tail.append(f"#[verifier::opaque] pub open spec fn {ty}_v(x: {ty}, p: Seq<char>, opt: bool, k: VKey) -> nat {{ {' + '.join(f'{ty}_n{n}(x, p, opt, k)' for n in R) or '0nat'} }}")
    if lemmas:
        tail += lemmas(src, info, specs)
    for M in (types.values()):
        for f in M.get("fields", []):
            for x in f["facets"]:
                if x.get("k") == "pat":
                    pats.add(x["re"])
    for t in TABLE.get(mod, {}).values():
        if t != "enum":
            for f in t:
                pats.update(x[1] for x in f[4] if x[0] == "pat")
    pats = sorted(pats)
    ok = re_valid(pats) if pats else []
    ens = "".join(f" re_ok({lit(p)})," for p, b in zip(pats, ok) if b)
    tail.append("/*vxspec:*/ #[verifier::external_body] pub proof fn vx_pats()" + (f" ensures{ens}" if ens else "") + " {}")
    tail.append("/*vxspec:canary*/ pub proof fn vx_canary() ensures false { vx_pats(); }")
    body = weave(woven, ins)
    a, b = mod.split("::")
    text = f"pub mod {a} {{ /*vxmod:{mod}*/ pub mod {b} {{\nuse vstd::prelude::*; use crate::vx::*; {'use crate::lem06::*; ' if lemmas else ''}use crate::regex; broadcast use crate::vx::vgroup;\n{body}\n" + weave("\n".join(tail), ins) + "\n}}\n"
    return text, info


def box_text(lemmas):
    return BOX.replace("/*LEM*/", " proof fn lem_mono(&self, p: Seq<char>, k: VKey) { (**self).lem_mono(p, k); }" if lemmas else "")


BOX = """
/*vxmod:vxbox*/ pub mod vxbox { use vstd::prelude::*; use crate::vx::*; use crate::validation::*; use crate::parse_result::*;
// method call through a Box: `b.validate(..)` on Box<T> is `(*b).validate(..)`
impl<T: Validate> Validate for Box<T> {
    open spec fn ok(&self, opt: bool) -> bool { (**self).ok(opt) }
    open spec fn viols(&self, p: Seq<char>, opt: bool, k: VKey) -> nat { (**self).viols(p, opt, k) }
    /*LEM*/
    fn validate(&self, path: &str, config: &ParserConfig, collector: &mut ErrorCollector) { (**self).validate(path, config, collector) }
}
}
"""
