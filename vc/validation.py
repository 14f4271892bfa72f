"""C01-C06: the validation core and all generated types under contract."""
from .docs import *
from .report import Report
from . import harness

FAMS = {"C01": ("ok",), "C02": ("cnt",), "C03": (), "C04": ("frame",), "C05": ("first",), "C06": ("ok", "cnt")}
ASSUME = [
    "str::trim, Chars::count, String/&str views: assumed contracts (contracts/rt.rs); trim is uninterpreted",
    "regex crate: Regex::new and is_match are deterministic functions of their texts (contracts/rt.rs); that `^(?:p)$` means a whole-text match is the meaning of the specification term full_match",
    "the patterns of the facet table compile (checked on every run with the regex crate itself by `vx regex`)",
    "format! concatenates its literal pieces and Display forms (rt::lit/arg)",
    "machine arithmetic: only lengths and u32 codes occur, no arithmetic is abstracted",
    "the committed facet table contracts/schema.json is the schema (mined once from the original sources, reviewed)",
]


def locate(e, mods):
    c = [(l[0], l[1]) for l in e["locs"] if l[0] and l[0][0] in mods]
    for (m, fn), prim in c:
        if fn and fn[0] == "fn" and not prim:
            return m, fn[1]
    for (m, fn), prim in c:
        if fn and fn[0] == "fn":
            return m, fn[1]
    for (m, fn), prim in c:
        return m, fn
    return None


def calls(path, src):
    """does the text call the function of that path? (by name; `Type::name(` or `.name(` for associated functions)"""
    ps = re.sub(r"<[^>]*>", "", path).split("::")
    n = re.escape(ps[-1]) + r"\s*(::\s*<[^>]*>)?\s*\("
    if len(ps) > 1 and ps[-2][:1].isupper():
        return re.search(r"(\b(%s|Self)\s*::\s*|\.\s*)%s" % (re.escape(ps[-2]), n), src) is not None
    return re.search(r"(?<![\w.])%s" % n, src) is not None


class Outcome:
    """of one generated crate: per function failed / undecided, with the verifier's words"""
    def __init__(self):
        self.failed, self.undecided, self.stats, self.canary, self.dead, self.fns = {}, {}, [], False, None, {}


def settle(path, make, mods, srcs, rlimit=30, threads=1, deadline=None, errors=4, grace=None):
    """make(ext) -> (text, uncontracted names). Verify; functions the verifier rejects are taken out and reported as undecided."""
    out = Outcome()
    ext = {m: set() for m in mods}
    for attempt in range(5):
        text, loose = make(ext)
        left = (deadline - time.time()) if deadline else 600
        if left < 20:
            out.dead = "out of time"
            return out
        r = run_verus(path, text, mods + submodules([srcs[m] for m in mods if m in srcs]), ("--rlimit", str(rlimit)), timeout=left, threads=threads, errors=errors, grace=grace)
        out.stats.append(r)
        if r.crash:
            out.dead = r.crash
        bad = [e for e in r.errors if e["kind"] == "other"]
        if not bad or out.dead:
            break
        progress = False
        for e in bad:
            w = locate(e, mods)
            if w and isinstance(w[1], int) and w[1] not in ext[w[0]]:
                ext[w[0]].add(w[1])
                out.undecided[(w[0], w[1])] = "outside the verifier's language: " + e["msg"][:200]
                progress = True
        if not progress:
            out.dead = "not verifiable: " + bad[0]["msg"][:300]
            return out
    else:
        out.dead = "not verifiable after removing the rejected functions"
        return out
    for e in r.errors:
        w = locate(e, mods)
        if w is None:
            out.dead = "error without location: " + e["msg"][:200]
            continue
        m, fn = w
        if fn == ("spec", "canary"):
            out.canary = True
            continue
        if not isinstance(fn, int):
            out.dead = out.dead or f"specification lemma failed near {fn}: {e['msg'][:200]}"
            continue
        f = srcs[m].byid[fn]
        call = [n for n in loose if calls(n, f["src"]) and n != f["path"]]
        if e["kind"] == "rlimit":
            out.undecided.setdefault((m, fn), "resource limit")
        elif call:
            out.undecided.setdefault((m, fn), "calls functions without a contract: " + ", ".join(call[:4]))
        else:
            out.failed.setdefault((m, fn), []).append(e["msg"] + "\n" + e["rendered"])
    for k in out.undecided:
        out.failed.pop(k, None)
    out.fns = r.fns
    return out


def unreached(out, src, ids):
    """functions under contract for which the verifier reports no verdict at all"""
    for i in ids:
        k = (src.name, i)
        if k not in out.undecided and k not in out.failed and not out.dead and verus_name(src.name, src.byid[i]["path"]) not in out.fns:
            out.undecided[k] = "not reached by the verifier"


def lemma_c06(src, info, specs):
    """per type: the lenient report is a sub-report of the full one"""
    out = []
    for ty, terms in specs.items():
        if terms is None:
            continue
        code = {f["n"]: f for f in src.schema["types"][ty].get("fields", [])}
        calls = ""
        for n, (fld, kind, o, v) in enumerate(terms):
            calls += f" reveal({ty}_n{n});"
            if kind != "rec":
                continue
            e, pre, post, k = f"x.{fld}", "", "", 0
            w = "".join(W[c] for c in code[fld]["wrap"])
            for c in w:
                if c == "O":
                    pre, post, e, k = pre + f"if let Some(w{k}) = {e} {{ ", post + " }", f"w{k}", k + 1
                elif c == "V":
                    break
                # Box<T> has the specification of T
            path = re.search(r'(cpath\(p, "(?:[^"\\]|\\.)*"@\))', v).group(1)
            calls += f" {pre}sum_rec_mono({e}@, {path}, k);{post}" if "V" in w else f" {pre}{e}.lem_mono({path}, k);{post}"
        out.append(f"/*vxspec:lemma {ty}*/ pub proof fn {ty}_mono(x: {ty}, p: Seq<char>, k: VKey) ensures {ty}_v(x, p, false, k) <= {ty}_v(x, p, true, k) {{ reveal({ty}_v);{calls} }}")
    return out


def check(prop, tier):
    rep = Report(prop, tier)
    deadline = time.time() + (560 if tier == "quick" else 3000)
    fams, exact = FAMS[prop], prop == "C03"
    work = os.path.join(BUILD, "work", prop)
    os.makedirs(work, exist_ok=True)
    rep.assumptions += ASSUME
    cs = core_sources()
    srcs = {s.name: s for s in cs}
    mods = module_list() if prop != "C03" else []
    ex = extract([{"file": f"{REPO}/{f}", "drop": [], "keep_fns": [], "log": [], "fmt": True, "known": [], "donors": [{"file": f"{REPO}/src/validation.rs", "known": CORE_KNOWN}]} for _, f in mods]) if mods else []
    broken = [s.name for s in cs if s.error]
    docs = []
    for (m, f), e in zip(mods, ex):
        s = Src(m, f, e)
        if s.error:
            broken.append(m)
            continue
        docs.append(s)
        srcs[m] = s
    if broken:
        rep.notes.append("not parseable as Rust: " + ", ".join(broken))
    known_fns = set(contract_error(None)) | set(contract_parse_result(FAMS_ALL)) | set(contract_validation(FAMS_ALL, True)) | {"Validate::validate"}

    L = prop == "C06"
    LB = (read(CONTRACTS, "lem06.rs") if L else "") + box_text(L)

    core_n = []

    def core_job():
        def make(ext):
            extra = []
            t = HEAD + core_text(cs, fams, exact, ext, prop=prop, report=extra, lemmas=L) + LB + "/*vxmod:vx_canary*/ pub mod vx_canary { use vstd::prelude::*; use crate::vx::*; /*vxspec:canary*/ pub proof fn vx_canary() ensures false { broadcast use crate::vx::vgroup; } }" + TAIL
            return t, {f["path"] for f in extra if f["path"] not in known_fns}
        o = settle(os.path.join(work, "core.rs"), make, ["error", "parse_result", "validation", "vx_canary", "vx", "rt", "vxbox"] + ["lem06"] * L, srcs, rlimit=60, threads=2, deadline=deadline)
        con = {**contract_error(prop), **contract_parse_result(fams, prop), **contract_validation(fams, exact, prop)}
        for c in cs:
            unreached(o, c, [f["id"] for f in c.fns if f["body"] and con.get(f["path"])])
        core_n.append(sum(1 for c in cs for f in c.fns if f["body"] and con.get(f["path"])))
        return o
    # one run of the verifier per clause family (C06 needs two)
    parts = [(x,) for x in fams] if L else [fams]
    core = {x: core_text(cs, x, False, "all", prop=prop, lemmas=x == ("cnt",) and L) + (LB if x == ("cnt",) else box_text(False)) for x in parts}

    infos = {}

    def doc_part(s, x, derived=None):
        lem = lemma_c06 if L and x == ("cnt",) else None

        def make(ext):
            t, info = gen_module(s, x, ext[s.name], lemmas=lem, derived=derived)
            infos[s.name] = info
            return HEAD + core[x] + t + TAIL, {k[3:] for k in info["undecided"] if k.startswith("fn ")}
        o = settle(os.path.join(work, s.name.replace("::", "_") + "".join("_" + y for y in x) + ".rs"), make, [s.name], srcs, rlimit=60, threads=1, deadline=deadline, errors=1, grace=40)
        unreached(o, s, [i for i in infos[s.name]["contract"]])
        if L and derived is None and (o.failed or o.undecided or o.dead or infos[s.name]["undecided"]):
            # C06 compares runs of the same code: the facets the code names now serve as well as those of the table
            i = infos[s.name]
            o2 = doc_part(s, x, derived_table(s.schema))
            if not (o2.failed or o2.undecided or o2.dead or infos[s.name]["undecided"]) or (not o2.dead and len(o2.failed) < len(o.failed)):
                return o2
            infos[s.name] = i
        return o

    docs.sort(key=lambda s: -len(s.text))
    jobs = [(s.name, lambda s=s, x=x: doc_part(s, x)) for s in docs for x in parts]
    jobs.insert(min(6, len(jobs)), ("core", core_job))
    res = {}
    for (n, _), o in zip(jobs, pool([j for _, j in jobs])):
        res.setdefault(n, []).append(o)

    # ---- tally
    smt = 0
    under, failed, undecided = 0, {}, {}
    nover, nerr = 0, 0
    for n, o in ((n, o) for n, l in res.items() for o in l):
        for r in o.stats:
            smt += r.smt_ms
        if o.stats:
            last = o.stats[-1]
            nover += last.verified
            fl = {locate(e, list(srcs) + ["vx_canary", "vx", "rt", "vxbox", "lem06"]) for e in last.errors if e["kind"] in ("fail", "rlimit")}
            nerr += len([x for x in fl if x and x[1] != ("spec", "canary")])
            rep.cov["checker_cmd"] = last.cmd
        failed.update(o.failed)
        undecided.update(o.undecided)
        if o.dead:
            rep.notes.append(f"{n}: {o.dead[:300]}")
        elif not o.canary:
            rep.notes.append(f"{n}: the must-fail canary did not fail; this module's proofs are not counted")
            o.dead = "canary"
    for n, i in infos.items():
        under += len(i["contract"])
        for k, why in i["undecided"].items():
            rep.notes.append(f"{n}::{k}: {why}")
    dead = [n for n, l in res.items() if any(o.dead for o in l)]
    weak = {(n, x) for n, i in infos.items() for x in i["weak"]}
    for k in list(failed):
        if k in weak:
            undecided[k] = "loop without a derivable invariant: " + failed.pop(k)[0].split("\n")[0]
    core_under = sum(core_n)
    rep.cov.update(obligations=nover + nerr, discharged=nover, functions_under_contract=under + core_under, types=under,
                   solver="Z3 4.16.0 via Verus", solver_ms=smt, modules=len(docs), outlined_bodies=sum(len(i["outlined"]) for i in infos.values()),
                   undecided=[f"{m}: {srcs[m].byid[f]['path']}: {w}" for (m, f), w in list(undecided.items())[:50]],
                   failed=[f"{m}: {srcs[m].byid[f]['path']}" for (m, f) in list(failed)[:50]])

    # ---- concrete search behind failures; bounded stand-in for the undecided
    def type_of(m, f):
        return srcs[m].byid[f]["self"]
    CORE = {"error", "parse_result", "validation"}
    core_bad = [k for k in failed if k[0] in CORE]
    core_und = [k for k in undecided if k[0] in CORE] or "core" in dead
    types_bad = sorted({(m, type_of(m, f)) for (m, f) in failed if m not in CORE})
    types_und = {(m, type_of(m, f)) for (m, f) in undecided if m not in CORE and type_of(m, f)}
    for n in dead:
        if n in srcs:
            types_und.update((n, t) for t in srcs[n].schema["types"])
    for n, i in infos.items():
        types_und.update((n, t) for t in i["undecided"] if t in srcs[n].schema["types"])
    types_und = sorted(types_und - set(types_bad))
    schemas = {s.name: s.schema for s in docs}
    deep = tier == "thorough"
    hit = set()
    try:
        if core_bad or core_und or deep:
            fnd, n = harness.hunt_core(prop, deep)
            rep.cov["core_inputs_run"] = n
            for x in fnd[:3]:
                rep.violation(f"{x['case']['op']}: {x['why']}", {**x, "failed_obligations": [w for k in core_bad for w in failed[k]][:4]}, True)
                hit.update(core_bad)
        by = {}
        for k, v in failed.items():
            if k[0] not in CORE:
                by.setdefault((k[0], type_of(*k)), []).extend(v)
        T = [types_bad[:60], types_und[:480]]
        if deep and not any(T):
            import random
            allt = [(m, t) for m in schemas for t in schemas[m]["types"]]
            T = [random.Random(int(os.environ.get("VERIF_SEED", "1"))).sample(allt, min(120, len(allt)))]
        if not any(T) and (core_und or (core_bad and not hit)):
            T = [[(m, t) for m in ("document::pacs_008_001_08", "header::bah_pacs_008_001_08") if m in schemas for t in schemas[m]["types"]]]
        for part in T:
            if not part or (rep.violations and part is T[-1] and len(T) > 1):
                continue
            fnd, n = harness.hunt_types(prop, part, TABLE, schemas, deep, 200 if len(T) == 1 or part is T[0] else max(30, min(150, deadline - time.time())))
            rep.cov["type_inputs_run"] = rep.cov.get("type_inputs_run", 0) + n
            for x in fnd:
                m, t = x["case"]["t"].rsplit("::", 1)
                rep.violation(f"{t} ({m}): {x['why']}", {**x, "failed_obligations": by.get((m, t), [])[:3]}, True)
                hit.update(k for k in failed if k[0] == m and type_of(*k) == t)
                if core_bad and not by.get((m, t)):
                    hit.update(core_bad)
    except Exception as e:
        rep.notes.append(f"concrete search did not run: {str(e)[-600:]}")
    for k, why in failed.items():
        if k not in hit:
            rep.violation(f"failed obligation: {k[0]}: {srcs[k[0]].byid[k[1]]['path']}", {"obligation": f"{k[0]}::{srcs[k[0]].byid[k[1]]['path']}", "verifier": why}, False)
    if undecided or dead:
        rep.notes.append(f"bounded stand-in for {len(undecided)} undecided function(s) and {len(dead)} module(s): {rep.cov.get('type_inputs_run', 0)} type inputs, {rep.cov.get('core_inputs_run', 0)} core inputs (bounded, not counted as proved)")
    return rep.finish()

