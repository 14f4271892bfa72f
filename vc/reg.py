"""C08: the message-type registry and its lookups."""
import json
from .unit import *
from .report import Report
from . import harness

ROWS = json.loads(read(CONTRACTS, "registry.json"))
URN = "urn:iso:std:iso:20022:tech:xsd:"
KEYS = {"S": "short", "F": "full", "E": "element", "U": "rust"}


def differ(a, b):
    """a proof step that the literals a and b are different texts"""
    if len(a) != len(b):
        return f"assert({q(a)}@.len() != {q(b)}@.len());"
    i = [x != y for x, y in zip(a, b)].index(True)
    return f"assert({q(a)}@[{i}] != {q(b)}@[{i}]);"


def q(s):
    return json.dumps(s, ensure_ascii=False)


def spec_text(lemmas=True):
    """the registry as a specification: rows, keys and their lookups; generated from contracts/registry.json"""
    o = ["/*vxmod:reg*/ pub mod reg {\n use vstd::prelude::*;\n"]
    for f, k in KEYS.items():
        o.append(f"pub open spec fn {f}(n: int) -> Seq<char> {{ " + " else ".join(f"if n == {i} {{ {q(r[k])}@ }}" for i, r in enumerate(ROWS)) + " else { seq![] } }\n")
    n = len(ROWS)
    o.append("/// the row that has this short or full form\n")
    o.append("#[verifier::opaque] pub open spec fn kt(s: Seq<char>) -> int { " + " else ".join(f"if s == {q(r['short'])}@ || s == {q(r['full'])}@ {{ {i} }}" for i, r in enumerate(ROWS)) + " else { -1 } }\n")
    o.append("/// the row that has this element or type name\n")
    o.append("#[verifier::opaque] pub open spec fn ke(s: Seq<char>) -> int { " + " else ".join(f"if s == {q(r['element'])}@ || s == {q(r['rust'])}@ {{ {i} }}" for i, r in enumerate(ROWS)) + " else { -1 } }\n")
    o.append("pub open spec fn is_row(s: Seq<char>, f: Seq<char>, u: Seq<char>, e: Seq<char>, n: int) -> bool { 0 <= n < %d && s == S(n) && f == F(n) && u == U(n) && e == E(n) }\n" % n)
    o.append(f"pub open spec fn urn(m: Seq<char>) -> Seq<char> {{ {q(URN)}@ + m }}\n")
    o.append("pub open spec fn nsof(m: Seq<char>) -> Seq<char> { urn(if kt(m) >= 0 { F(kt(m)) } else { m }) }\n")
    o.append("pub open spec fn norm(m: Seq<char>) -> Seq<char> { if kt(m) >= 0 { S(kt(m)) } else { m } }\n")
    if lemmas:
        o.append("/*vxspec:lemma unique*/\n")
        strs = lambda ks: [(i, r[k]) for i, r in enumerate(ROWS) for k in ks]
        for nm, ks, fn in (("kt", ("short", "full"), "kt"), ("ke", ("element", "rust"), "ke")):
            fs = [f for f, k in KEYS.items() if k in ks]
            for i, r in enumerate(ROWS):
                body = f"reveal({fn});"
                lits = {r[k] for k in ks} | {s for _, s in strs(ks)}
                body += "".join(f" reveal_strlit({q(s)});" for s in sorted(lits))
                for k in ks:
                    for j, s in strs(ks):
                        if j < i:
                            body += " " + differ(r[k], s)
                o.append(f"pub proof fn {fn}_{i}() ensures {', '.join(f'{fn}({f}({i})) == {i}' for f in fs)} {{ {body} }}\n")
            o.append(f"pub proof fn {fn}_inv(n: int) requires 0 <= n < {n} ensures {', '.join(f'{fn}({f}(n)) == n' for f in fs)} {{ " + " ".join(f"if n == {i} {{ {fn}_{i}(); }}" for i in range(n)) + " }\n")
            ens = ", ".join(f"{fn}({q(r[k])}@) == {i}" for i, r in enumerate(ROWS) for k in ks)
            o.append(f"pub proof fn {fn}_all() ensures {ens} {{ " + " ".join(f"{fn}_{i}();" for i in range(n)) + " }\n")
            a, b = fs
            o.append(f"pub proof fn {fn}_range(s: Seq<char>) ensures -1 <= {fn}(s) < {n}, {fn}(s) >= 0 ==> s == {a}({fn}(s)) || s == {b}({fn}(s)) {{ reveal({fn}); }}\n")
        o.append(f"pub proof fn S_all() ensures forall|n: int| 0 <= n < {n} ==> kt(#[trigger] S(n)) == n {{ assert forall|n: int| 0 <= n < {n} implies kt(#[trigger] S(n)) == n by {{ kt_inv(n); }} }}\n")
        o.append(LAWS)
    o.append("/*vxspec:*/\n}\n")
    return "".join(o)


LAWS = """
/*vxspec:lemma laws*/
/// the mutual-inverse laws of C08, as consequences of the contracts of the lookups
pub proof fn law_inverse(m: Seq<char>, e: Seq<char>)
    ensures
        // normalising is idempotent, and the short form of the full form is the short form
        norm(norm(m)) == norm(m),
        kt(m) >= 0 ==> norm(F(kt(m))) == norm(m) && norm(S(kt(m))) == norm(m),
        // type -> element -> type, type -> type name -> type
        kt(m) >= 0 ==> ke(E(kt(m))) == kt(m) && ke(U(kt(m))) == kt(m),
        // element -> type -> element
        ke(e) >= 0 ==> kt(S(ke(e))) == ke(e) && (e == E(ke(e)) || e == U(ke(e))),
        // a namespace is the namespace of its own full form
        kt(m) >= 0 ==> nsof(F(kt(m))) == nsof(m) && nsof(S(kt(m))) == nsof(m),
{
    kt_range(m); ke_range(e);
    if kt(m) >= 0 { kt_inv(kt(m)); ke_inv(kt(m)); }
    if ke(e) >= 0 { kt_inv(ke(e)); ke_inv(ke(e)); }
}
pub proof fn law_distinct(i: int, j: int)
    requires 0 <= i < NROWS, 0 <= j < NROWS, i != j
    ensures S(i) != S(j), F(i) != F(j), E(i) != E(j), U(i) != U(j), S(i) != F(j), E(i) != U(j)
{ kt_inv(i); kt_inv(j); ke_inv(i); ke_inv(j); }
""".replace("NROWS", str(len(ROWS)))

TY = "vx_r == match {K} {{ _ if {K} >= 0 => Some, _ => None }}"


def opt(kf, arg, field):
    return [f"{kf}({arg}) >= 0 ==> vx_r is Some && vx_r->Some_0@ == {field}({kf}({arg}))", f"{kf}({arg}) < 0 ==> vx_r is None"]


REG_CON = {
    "get_namespace": {"ens": ["vx_r@ == nsof(message_type@)"]},
    "normalize_message_type": {"ens": ["vx_r@ == norm(message_type@)"]},
    "element_to_message_type": {"ens": opt("ke", "element_name@", "S")},
    "message_type_to_element": {"ens": opt("kt", "message_type@", "E")},
    "message_type_to_rust_type": {"ens": opt("kt", "message_type@", "U")},
    "get_full_form": {"ens": opt("kt", "message_type@", "F")},
}
# names of parameters may change: contracts are written over the first parameter


def rename(con, src):
    """contracts over the positional parameter names of the current source"""
    base = {"get_namespace": ["message_type"], "normalize_message_type": ["message_type"], "element_to_message_type": ["element_name"], "message_type_to_element": ["message_type"],
            "message_type_to_rust_type": ["message_type"], "get_full_form": ["message_type"]}
    return sub_params(con, src, base)


def sub_params(con, src, base):
    out = {}
    by = {f["path"]: f for f in src.fns}
    for p, c in con.items():
        c = dict(c)
        if p in by and p in base:
            cur = [re.sub(r"^(mut|ref)\s+", "", x[0]) for x in by[p]["params"] if not x[0].startswith("self")]
            for old, new in zip(base[p], cur):
                if old != new and re.fullmatch(r"\w+", new):
                    for key in ("req", "ens"):
                        if key in c:
                            c[key] = [re.sub(rf"\b{old}\b", new, x) for x in c[key]]
                    for key in ("pro", "end"):
                        if key in c:
                            c[key] = re.sub(rf"\b{old}\b", new, c[key])
        out[p] = c
    return out


ENTRY = "MessageTypeInfo"
FLD = {"short_form": "S", "full_form": "F", "rust_type_name": "U", "xml_element_name": "E"}
def entries(src):
    """row number (or None) of each entry of the table constant, in source order"""
    for m in re.finditer(r"/\*@K(\w+)@\*/ \{(.*?)\n?\s*\]\}", src.text, re.S):
        ents = re.findall(ENTRY + r"\s*\{(.*?)\}", m.group(2), re.S)
        out = []
        for e in ents:
            mm = re.search(r'short_form:\s*"([^"]*)"', e)
            out.append(next((i for i, r in enumerate(ROWS) if mm and r["short"] == mm.group(1)), None))
        return m.group(1), out
    return None, []


def table_mod(order):
    """predicates over the table, in the order in which the source lists it today"""
    n = len(ROWS)
    at = {r: j for j, r in enumerate(order)}
    conj = lambda d: f"t.len() == {len(order)}" + "".join(f" && row_of({d}t[{j}]) == {r} && row_ok({d}t[{j}])" if r is not None else f" && row_ok({d}t[{j}])" for j, r in enumerate(order)) + ("" if all(i in at for i in range(n)) else " && false")
    miss = lambda k, h: " ".join(f"if {k}(m) == {i} {{ assert(!{h}(*t[{at[i]}], m)); }}" for i in range(n) if i in at)
    return f"""
/*vxmod:regm*/ pub mod regm {{ use vstd::prelude::*; use crate::reg::*; use crate::message_registry::{ENTRY};
    pub open spec fn row_of(e: {ENTRY}) -> int {{ kt(e.short_form@) }}
    pub open spec fn row_ok(e: {ENTRY}) -> bool {{ is_row(e.short_form@, e.full_form@, e.rust_type_name@, e.xml_element_name@, row_of(e)) }}
    /// the table holds exactly the registered rows
    #[verifier::opaque] pub open spec fn table_ok(t: Seq<{ENTRY}>) -> bool {{ {conj("")} }}
    #[verifier::opaque] pub open spec fn table_r(t: Seq<&'static {ENTRY}>) -> bool {{ {conj("*")} }}
    pub open spec fn hit_t(e: {ENTRY}, m: Seq<char>) -> bool {{ e.short_form@ == m || e.full_form@ == m }}
    pub open spec fn hit_e(e: {ENTRY}, m: Seq<char>) -> bool {{ e.xml_element_name@ == m || e.rust_type_name@ == m }}
    /*vxspec:lemma table*/
    pub broadcast proof fn refs(t: Seq<{ENTRY}>, u: Seq<&'static {ENTRY}>) requires #[trigger] table_ok(t), u.len() == t.len(), forall|j: int| 0 <= j < t.len() ==> *(#[trigger] u[j]) == t[j] ensures #[trigger] table_r(u) {{ reveal(table_ok); reveal(table_r); }}
    pub broadcast proof fn rows(t: Seq<&'static {ENTRY}>, j: int) requires #[trigger] table_r(t), 0 <= j < t.len() ensures row_ok(*(#[trigger] t[j])) {{ reveal(table_r); {" ".join(f"if j == {j} {{ assert(row_ok(*t[{j}])); }}" for j in range(len(order)))} }}
    pub broadcast proof fn miss_t(t: Seq<&'static {ENTRY}>, m: Seq<char>) requires #[trigger] table_r(t), forall|j: int| 0 <= j < t.len() ==> !hit_t(*(#[trigger] t[j]), m) ensures #[trigger] kt(m) < 0 {{
        kt_range(m); reveal(table_r); if kt(m) >= 0 {{ kt_inv(kt(m)); }} {miss("kt", "hit_t")}
    }}
    pub broadcast proof fn miss_e(t: Seq<&'static {ENTRY}>, m: Seq<char>) requires #[trigger] table_r(t), forall|j: int| 0 <= j < t.len() ==> !hit_e(*(#[trigger] t[j]), m) ensures #[trigger] ke(m) < 0 {{
        ke_range(m); reveal(table_r); if ke(m) >= 0 {{ ke_inv(ke(m)); }} {miss("ke", "hit_e")}
    }}
    pub broadcast proof fn found_t(e: {ENTRY}, m: Seq<char>) requires row_ok(e), #[trigger] hit_t(e, m) ensures kt(m) == row_of(e) {{ kt_inv(row_of(e)); }}
    pub broadcast proof fn found_e(e: {ENTRY}, m: Seq<char>) requires row_ok(e), #[trigger] hit_e(e, m) ensures ke(m) == row_of(e) {{ ke_inv(row_of(e)); }}
    pub proof fn seen(t: Seq<&'static {ENTRY}>, j: int, m: Seq<char>) requires table_r(t), 0 <= j < t.len() ensures hit_t(*t[j], m) ==> kt(m) == row_of(*t[j]), hit_e(*t[j], m) ==> ke(m) == row_of(*t[j]), row_ok(*t[j]) {{ rows(t, j); if hit_t(*t[j], m) {{ found_t(*t[j], m); }} if hit_e(*t[j], m) {{ found_e(*t[j], m); }} }}
    pub broadcast group regs {{ refs, rows, miss_t, miss_e, found_t, found_e }}
    /*vxspec:*/
}}
"""


def reg_src():
    ex = extract([{"file": f"{REPO}/src/message_registry.rs", "drop": [], "keep_fns": [], "log": [], "fmt": True, "io": True, "known": list(REG_CON)}])
    s = Src("message_registry", "src/message_registry.rs", ex[0])
    s.const, s.order = (None, []) if s.error else entries(s)
    if s.const:
        name, K = s.const, f"/*@K{s.const}@*/"
        a = s.text.index(K)
        head, body = s.text[:a], s.text[a + len(K):]
        end = body.index("]}") + 2
        inner = body[:end].strip()
        steps = "reveal(table_ok);" + "".join(f" kt_inv({r});" for r in s.order if r is not None)
        body = f"\n        ensures table_ok({name}@)\n{{ let vx_k: &'static [{ENTRY}] = {inner[1:-1].strip()}; proof {{ {steps} }} vx_k }}" + body[end:]
        s.text = head.replace(f"/*@A{name}@*/", f"/*vxspec:const {name}*/ ") + body
    return s


def reg_inv(src, f, l):
    """candidate invariants of a walk over the table"""
    i = l["id"]
    ps = [re.sub(r"^(mut|ref)\s+", "", p[0]) for p in f["params"] if p[1].replace("'static ", "").strip() in ("&str", "&String")]
    seq = f"vx_it{i}.seq()"
    t = lambda h, p: f"forall|vx_j: int| 0 <= vx_j < vx_it{i}.index@ ==> !{h}(*(#[trigger] {seq}[vx_j]), {p}@)"
    fam = [t(h, p) for p in ps for h in ("hit_t", "hit_e")]
    if l.get("kind") == "find":
        end = [f"vx_f{i} is Some ==> row_ok(*(vx_f{i}->Some_0)) && {h}(*(vx_f{i}->Some_0), {p}@)" for p in ps for h in ("hit_t", "hit_e")]
        end += [f"vx_f{i} is None ==> {k}({p}@) < 0" for p in ps for k in ("kt", "ke")]
        return {"inv": [f"table_r({seq})", f"vx_f{i} is None"] + fam, "ens": end}
    body = "proof { " + " ".join(f"seen({seq}, vx_it{i}.index@ as int, {p}@);" for p in ps) + " }"
    return {"inv": [f"table_r({seq})"] + fam, "body": body}


def reg_cand(src, f):
    """postconditions a helper without a contract may have; the verifier decides which"""
    ps = [re.sub(r"^(mut|ref)\s+", "", p[0]) for p in f["params"] if p[1].strip() in ("&str", "&String")]
    es = [p[0] for p in f["params"] if ENTRY in p[1] or (p[0] == "self" or "self" in p[1]) and f.get("self") == ENTRY]
    out = []
    ret = (f["ret"] or "").replace(" ", "")
    for p in ps:
        if ret.startswith("Option<&") and ENTRY in ret:
            for k in ("kt", "ke"):
                out += [f"{k}({p}@) >= 0 ==> vx_r is Some && row_ok(*(vx_r->Some_0)) && row_of(*(vx_r->Some_0)) == {k}({p}@)", f"{k}({p}@) < 0 ==> vx_r is None"]
        if ret == "String":
            out += [f"vx_r@ == nsof({p}@)", f"vx_r@ == norm({p}@)", f"vx_r@ == urn({p}@)"]
        if ret.startswith("Option<&") and ret.endswith("str>"):
            for k in ("kt", "ke"):
                for c in KEYS:
                    out += opt(k, p + "@", c)
        if ret == "bool":
            for e in es or []:
                e = "*self" if "self" in e else f"*{e}"
                out += [f"vx_r == hit_t({e}, {p}@)", f"vx_r == hit_e({e}, {p}@)"]
            out += [f"vx_r == (kt({p}@) >= 0)", f"vx_r == (ke({p}@) >= 0)"]
    return out


USES = "use vstd::prelude::*; use crate::reg::*; use crate::regm::*; broadcast use crate::regm::regs;"
