"""Concrete runs of the real code: search for a failing input behind a failed obligation, and the bounded stand-in for
functions the verifier cannot take. The expectations are computed here from the same contract table."""
import shutil, random
from .common import *

HDIR = os.path.join(BUILD, "harness")


def build(gen=None, timeout=700):
    """build the harness against /repo's working tree; returns the binary path or raises"""
    os.makedirs(HDIR, exist_ok=True)
    src = os.path.join(VERIF, "harness")
    def put(dst, data):
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if not (os.path.exists(dst) and read(dst) == data):
            with open(dst, "w") as f:
                f.write(data)
    for fn in ["Cargo.toml", "Cargo.lock"] + ["src/" + f for f in os.listdir(os.path.join(src, "src"))]:
        if fn == "Cargo.lock" and os.path.exists(os.path.join(HDIR, fn)):
            continue
        data = read(src, fn)
        if fn == "src/gen.rs" and gen:
            data = gen if "fn doc_parts" in gen else gen + NODOCS
        if fn == "Cargo.toml":
            data = data.replace('"/repo"', json.dumps(REPO))
        put(os.path.join(HDIR, fn), data)
    t = os.path.join(BUILD, "htarget")
    r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=HDIR, env=cargo_env(t), capture_output=True, text=True, timeout=timeout)
    if r.returncode:
        raise RuntimeError("harness does not build:\n" + r.stderr[-3000:])
    return os.path.join(t, "debug/harness")


def run(binary, cases, timeout=400):
    """answers for the cases, in order; a case that ends or blocks the process is answered as a panic"""
    out, left, bad = [], list(cases), 0
    while left:
        code = None
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            o, e = p.communicate(("\n".join(json.dumps(c) for c in left) + "\n").encode(), timeout=timeout)
            code = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
        got = [json.loads(l) for l in o.decode().split("\n")[:-1]]
        out += got
        left = left[len(got):]
        if code == 0 and not left:
            break
        if code == 0 or not left:
            raise RuntimeError("harness crashed: " + e.decode(errors="replace")[-2000:])
        if code is None and (got or timeout > 60):
            timeout = 60
            continue                   # slow, or the first of the rest blocks
        bad += 1
        if bad > 5:
            out += [{"panic": "not run: too many cases ended the process"}] * len(left)
            break
        out.append({"panic": f"the process ended (status {code}): " + e.decode(errors="replace")[-300:].strip() if code is not None else f"no answer in {timeout} s"})
        left = left[1:]
    return out


DOCGEN = """fn doc_parts(d: &mx_message::mx_envelope::Document) -> (i64, Result<String, String>) { match d { ARMS } }
fn row_de(n: i64, s: &str) -> Option<(bool, Value)> { match n { ROWS _ => None } }
fn got<T: serde::Serialize>(r: Result<T, quick_xml::DeError>) -> (bool, Value) { match r { Ok(x) => { let v = serde_json::to_value(&x).ok(); (v.is_some(), v.unwrap_or(Value::Null)) } Err(_) => (false, Value::Null) } }
"""


def gen_docs(variants, rows):
    """variants: [(variant, row)]; rows: [type path]"""
    arms = " ".join(f"mx_message::mx_envelope::Document::{v}(b) => ({i}, quick_xml::se::to_string(&**b).map_err(|e| e.to_string()))," for v, i in variants)
    de = " ".join(f"{i} => Some(got(quick_xml::de::from_str::<mx_message::document::{t}>(s)))," for i, t in enumerate(rows))
    return gen_types([]) + DOCGEN.replace("ARMS", arms).replace("ROWS", de)


NODOCS = """fn doc_parts(_: &mx_message::mx_envelope::Document) -> (i64, Result<String, String>) { (-1, Err("not generated".into())) }
fn row_de(_: i64, _: &str) -> Option<(bool, Value)> { None }
"""


def gen_types(types):
    arms = ""
    for m, t in types:
        arms += f'        "{m}::{t}" => {{ let x: mx_message::{m}::{t} = serde_json::from_value(v).map_err(|e| e.to_string())?; x.validate(p, c, e); Ok(()) }}\n'
    return ("fn run_type(t: &str, v: serde_json::Value, p: &str, c: &ParserConfig, e: &mut ErrorCollector) -> Result<(), String> {\n    match t {\n"
            + arms + '        _ => { let _ = (v, p, c, e); Err("not generated".into()) }\n    }\n}\n')


# ---- texts that match or nearly match a pattern
def samples(pat, rng, n=6):
    try:
        import re._parser as sp, re._constants as sc
    except ImportError:
        import sre_parse as sp, sre_constants as sc
    try:
        tree = sp.parse(pat)
    except Exception:
        return ["A"]

    def go(nodes, mode):
        out = ""
        for op, av in nodes:
            op = str(op)
            if op == "LITERAL":
                out += chr(av)
            elif op == "ANY":
                out += rng.choice("aZ0 é")
            elif op == "IN":
                cs = []
                for o, a in av:
                    o = str(o)
                    if o == "LITERAL":
                        cs.append(chr(a))
                    elif o == "RANGE":
                        cs += [chr(a[0]), chr(a[1]), chr(rng.randint(a[0], a[1]))]
                    elif o == "CATEGORY":
                        cs += ["0", "7", "9"]
                out += rng.choice(cs or ["A"])
            elif op in ("MAX_REPEAT", "MIN_REPEAT"):
                lo, hi, sub = av
                hi = min(int(hi), lo + 12) if mode != "max" else min(int(hi), lo + 400)
                k = lo if mode == "min" else hi if mode == "max" else rng.randint(lo, hi)
                for _ in range(k):
                    out += go(sub, mode)
            elif op == "SUBPATTERN":
                out += go(av[3], mode)
            elif op == "BRANCH":
                out += go(rng.choice(av[1]), mode)
            elif op == "CATEGORY":
                out += "7"
        return out
    return [go(tree, m) for m in ["min", "max"] + ["mid"] * n]


def texts(facets, extra, rng, deep):
    """candidate values for one constrained string: facets = the contract's, extra = what the code says now"""
    S = ["", " ", "A", "a", "0", "é", "\n", "AB", "x" * 20, "1" * 4, "ﷺ", "日本", "A\n", "-", "/", "+"]
    for f in list(facets) + list(extra):
        if f[0] == "len":
            for b in (f[1], f[2]):
                if b is not None:
                    for k in {max(0, b - 1), b, b + 1}:
                        if k <= 20000:
                            S += ["A" * k, "0" * k, "é" * k, ("aé" * k)[:k], "A" * max(0, k - 1) + " ", " " + "A" * max(0, k - 1)]
        else:
            base = samples(f[1], rng, 8 if deep else 4)
            S += base
            for b in base:
                S += [" " + b, b + " ", b + "\n", "§" + b, b + "§", b[:-1], b[1:], b + b, b.lower(), b.upper(), b + "0", "A" + b, "\t" + b + " "]
            b = base[0] if base[0] else "A"
            for pos in sorted({0, len(b) // 2, len(b) - 1}):
                for c in list(range(32, 127)) + [0xe9, 0x660, 9, 10, 13]:
                    S.append(b[:pos] + chr(c) + b[pos + 1:])
            if deep:
                for b in base[2:5]:
                    for pos in range(min(len(b), 40)):
                        for c in range(32, 127):
                            S.append(b[:pos] + chr(c) + b[pos + 1:])
    return list(dict.fromkeys(S))


class Model:
    """values and expected reports of the generated types, from the contract table and the current field shapes"""
    W = {"Option": "O", "Vec": "V", "Box": "B"}

    def __init__(self, table, schemas, seed=1):
        self.table, self.schemas, self.rng = table, schemas, random.Random(seed)
        self.cache, self.rx = {}, {}

    def fields(self, mod, ty):
        """(key, wrap, base, contract facets, code facets)"""
        k = (mod, ty)
        if k in self.cache:
            return self.cache[k]
        code = self.schemas[mod]["types"][ty]
        tab = self.table.get(mod, {}).get(ty)
        if code["kind"] == "enum":
            self.cache[k] = None
            return None
        by_id = {f[0]: f for f in tab or [] if tab != "enum"}
        by_xml = {f[1]: f for f in tab or [] if tab != "enum"}
        out = []
        for f in code["fields"]:
            ren = [x[1] for x in f["serde"] if x[0] == "rename"]
            row = by_id.get(f["n"]) or (by_xml.get(ren[0]) if ren else None)
            key = ren[0] if ren else f["n"]
            xml = row[1] if row else key
            facets = [x for x in row[4] if x[0] != "rec"] if row else []
            now = []
            for x in f["facets"]:
                if x["k"] == "len":
                    now.append(["len", x.get("min"), x.get("max")])
                elif x["k"] == "pat":
                    now.append(["pat", x["re"]])
            out.append((key, xml, "".join(self.W[w] for w in f["wrap"]).replace("B", ""), f["base"], facets, now))
        self.cache[k] = out
        return out

    def rematch(self, todo):
        """fill self.rx for {(pattern, text)}"""
        q = {}
        for p, t in todo:
            if (p, t) not in self.rx:
                q.setdefault(p, []).append(t)
        if q:
            build_vx()
            ps = list(q)
            r = subprocess.run([VX, "rematch"], input=json.dumps([[p, q[p]] for p in ps]), capture_output=True, text=True, check=True)
            for p, v in zip(ps, json.loads(r.stdout)):
                for t, b in zip(q[p], v):
                    self.rx[(p, t)] = b

    def good(self, base, facets, depth=0):
        """a valid text for these facets"""
        key = ("good", json.dumps(facets))
        if key in self.cache:
            return self.cache[key]
        S = texts(facets, [], random.Random(7), False)
        self.rematch([(f[1], t) for f in facets if f[0] == "pat" for t in S])
        for t in S:
            if t.strip() and all((f[1] is None or len(t) >= f[1]) and (f[2] is None or len(t) <= f[2]) if f[0] == "len" else self.rx[(f[1], t)] for f in facets):
                self.cache[key] = t
                return t
        self.cache[key] = "A"
        return "A"

    def leaf(self, base, facets):
        if base == "String":
            return self.good(base, facets)
        return {"bool": True}.get(base, 1.5)

    def minimal(self, mod, ty):
        """valid value with only the required parts"""
        code = self.schemas[mod]["types"][ty]
        if code["kind"] == "enum":
            v = code["variants"][0]
            ren = [x[1] for x in v["serde"] if x[0] == "rename"]
            return ren[0] if ren else v["n"]
        out = {}
        for key, xml, w, base, facets, now in self.fields(mod, ty):
            if w.startswith("O"):
                continue
            v = self.minimal(mod, base) if base in self.schemas[mod]["types"] else self.leaf(base, facets)
            out[key] = [v] if w == "V" else v
        return out

    def broken(self, mod, ty, opt_ok=True, seen=0):
        """minimal value plus one violation somewhere below, or None"""
        k = ("broken", mod, ty, opt_ok)
        if k in self.cache:
            return self.cache[k]
        self.cache[k] = None
        code = self.schemas[mod]["types"][ty]
        if code["kind"] == "enum":
            return None
        for key, xml, w, base, facets, now in self.fields(mod, ty):
            if facets:
                v = self.minimal(mod, ty)
                bad = "\u00a7" * 3000
                v[key] = [bad] if "V" in w else bad
                self.cache[k] = v
                return v
        for key, xml, w, base, facets, now in self.fields(mod, ty):
            if base in self.schemas[mod]["types"]:
                b = self.broken(mod, base, opt_ok)
                if b is not None:
                    v = self.minimal(mod, ty)
                    v[key] = [b] if "V" in w else b
                    self.cache[k] = v
                    return v
        return None

    # ---- expected report of a value: list of (code, field, path); gathers pattern queries first
    def walk(self, mod, ty, v, path, opt, out):
        fl = self.fields(mod, ty)
        if fl is None:
            return
        for key, xml, w, base, facets, now in fl:
            if not isinstance(v, dict) or key not in v or v[key] is None:
                continue
            x = v[key]
            p = xml if path == "" else path + "." + xml
            items = x if "V" in w else [x]
            if base in self.schemas[mod]["types"]:
                if w.startswith("O") and not opt:
                    continue
                for it in items:
                    self.walk(mod, base, it, p, opt, out)
            elif base == "String":
                for f in facets:
                    for it in items:
                        out.append((f, it, xml, p))

    def full(self, checks):
        r = []
        for f, it, xml, p in checks:
            if f[0] == "len":
                if f[1] is not None and len(it) < f[1]:
                    r.append((1001, xml, p))
                if f[2] is not None and len(it) > f[2]:
                    r.append((1002, xml, p))
            elif not self.rx[(f[1], it)]:
                r.append((1005, xml, p))
        return r

    def values(self, mod, ty, deep=False):
        """values of one type that exercise each of its own fields"""
        fl = self.fields(mod, ty)
        if fl is None:
            return [self.minimal(mod, ty)]
        base_v = self.minimal(mod, ty)
        out = [base_v]
        allbad, allgood = dict(base_v), dict(base_v)
        for key, xml, w, base, facets, now in fl:
            put = lambda x: out.append({**base_v, key: x})
            if base in self.schemas[mod]["types"]:
                good, bad = self.minimal(mod, base), self.broken(mod, base)
                if "V" in w:
                    put([]); put([good]); put([good, good])
                    if bad is not None:
                        put([bad]); put([good, bad]); put([bad, good]); put([bad, good, bad]); put([good, good, bad])
                        allbad[key] = [bad, bad]
                    allgood[key] = [good]
                else:
                    put(good)
                    if bad is not None:
                        put(bad)
                        allbad[key] = bad
                    allgood[key] = good
            elif base == "String":
                T = texts(facets, now, self.rng, deep)
                g = self.good(base, facets)
                bad = "\u00a7" * 3000
                if "V" in w:
                    for t in T:
                        put([t])
                    put([]); put([g, bad]); put([bad, g]); put([bad, bad]); put([g, g, bad]); put(["", "", g])
                    allbad[key] = [bad, bad]
                    allgood[key] = [g, g]
                else:
                    for t in T:
                        put(t)
                    allbad[key] = bad
                    allgood[key] = g
        out += [allbad, allgood]
        for k in list(allbad):
            v = dict(allgood); v[k] = allbad[k]; out.append(v)
            v = dict(allbad); v[k] = allgood.get(k, v[k]); out.append(v)
        ks = list(allbad)
        for _ in range(60 if deep else 15):
            out.append({k: (allbad if self.rng.random() < .5 else allgood).get(k, allbad[k]) for k in ks if k in base_v or self.rng.random() < .7})
        return out


CFGS = [[ff, opt, al] for ff in (False, True) for opt in (False, True) for al in (False, True)]
PRES = [[], [False], [True], [False, True, False]]


def judge(case, ans, full, prop):
    """reasons why the answer contradicts the property; full = expected full report"""
    from collections import Counter
    if "panic" in ans:
        return "validation panicked: " + ans["panic"]
    if "bad" in ans:
        return None
    ff = case["cfg"][0]
    pre = [[7000 + i, f"F{i}", f"P{i}", f"before {i}"] for i in range(len(case["pre"]))]
    crit0 = any(case["pre"])
    errs = ans["errs"]
    new = [tuple(e[:3]) for e in errs[len(pre):]]
    stopped = ff and crit0
    if prop == "C01":
        if not stopped and (len(new) > 0) != (len(full) > 0):
            return f"verdict: expected {'an error' if full else 'no error'}, got {new[:3]}; violated facets: {full[:3]}"
    if prop == "C02":
        if not ff and Counter(new) != Counter(full):
            return f"report differs: missing {list((Counter(full) - Counter(new)).items())[:3]}, extra {list((Counter(new) - Counter(full)).items())[:3]}"
    if prop == "C04":
        if errs[:len(pre)] != pre:
            return f"errors collected before the call changed: {errs[:len(pre)]}"
        if not ff and ans["crit"] != crit0:
            return f"critical flag became {ans['crit']}"
        if ff and ans["crit"] != (crit0 or bool(new)):
            return f"critical flag is {ans['crit']} with {len(new)} new error(s)"
        if "second" in ans and ans["second"]["errs"][:len(errs)] != errs:
            return f"errors collected before the second call changed: had {len(errs)}, now {ans['second']['errs'][:4]}"
        if ans["count"] != len(errs) or ans["has"] != bool(errs):
            return "error_count/has_errors disagree with the list"
    if prop == "C05" and ff:
        if stopped and new:
            return f"recorded {new[:2]} after a critical error"
        if not stopped and (len(new) != (1 if full else 0) or (new and (new[0] not in full or not ans["crit"]))):
            return f"fail-fast recorded {new[:3]} (critical={ans['crit']}), full report is {full[:3]}"
    return None


def agree(group):
    """C06 on the answers of one value under several configurations: why they disagree, with the two cases"""
    from collections import Counter
    rows = []
    for c, a in group:
        if "panic" in a or "bad" in a:
            continue
        ff, opt, al = c["cfg"]
        if ff and any(c["pre"]):
            continue
        rows.append((ff, opt, c, a, Counter(tuple(e[:3]) for e in a["errs"][len(c["pre"]):])))
    for i, (ff, opt, c, a, n) in enumerate(rows):
        for ff2, opt2, c2, a2, n2 in rows[:i]:
            why = None
            if (ff, opt) == (ff2, opt2) and n != n2:
                why = "the report depends on " + ("collect_all_errors" if c["cfg"][2] != c2["cfg"][2] else "what the collector held before")
            elif opt == opt2 and bool(n) != bool(n2):
                why = "fail-fast and full validation disagree on the verdict"
            elif not ff and not ff2 and opt != opt2 and ((n if not opt else n2) - (n if opt else n2)):
                why = "lenient validation reports an error that full validation does not"
            if why:
                return why, [c2, c], [a2, a]
    return None


def hunt_types(prop, types, table, schemas, deep=False, budget=200):
    """search all given types for an input on which the real code contradicts prop.
    returns (findings, cases run)"""
    types = [(m, t) for m, t in types if t in schemas.get(m, {}).get("types", {})]
    if not types:
        return [], 0
    binary = build(gen_types(types))
    M = Model(table, schemas)
    t0, found, total = time.time(), [], 0
    for i in range(0, len(types), 40):
        f, n = hunt_batch(prop, binary, M, types[i:i + 40], deep)
        found, total = found + f, total + n
        if found or time.time() - t0 > budget:
            break
    return found, total


def hunt_batch(prop, binary, M, types, deep):
    cases, meta = [], []
    for m, t in types:
        vals = M.values(m, t, deep)
        for n, v in enumerate(vals):
            if prop == "C06":
                cfgs = [(c, []) for c in CFGS] + [(CFGS[n % 4], [False, True]), (CFGS[4 + n % 4], [False])]
            elif n % 7 == 0 or deep or len(vals) < 80:
                cfgs = [(c, PRES[(n + i) % len(PRES)]) for i, c in enumerate(CFGS)]
            else:
                cfgs = [([False, True, True], []), ([True, True, n % 2 == 0], PRES[n % 4]), ([n % 3 == 0, False, True], [])]
            for c, pre in cfgs:
                p = ["", "Doc", "A.B"][n % 3]
                cases.append({"op": "type", "t": f"{m}::{t}", "v": v, "p": p, "cfg": c, "pre": pre, **({"again": True} if prop == "C04" else {})})
                meta.append((m, t))
    def answers():
        n = max(1, (len(cases) + 7) // 8)
        outs = pool([lambda i=i: run(binary, cases[i:i + n]) for i in range(0, len(cases), n)])
        return [a for o in outs for a in o]
    if prop == "C06":
        ans, found, seen, k = answers(), [], set(), len(CFGS) + 2
        for i in range(0, len(cases), k):
            w = agree(list(zip(cases[i:i + k], ans[i:i + k])))
            if w and meta[i] not in seen:
                seen.add(meta[i])
                found.append({"case": w[1][1], "why": w[0], "cases": w[1], "got": w[2]})
        return found, len(cases)
    checks = []
    for c, (m, t) in zip(cases, meta):
        o = []
        M.walk(m, t, c["v"], c["p"], c["cfg"][1], o)
        checks.append(o)
    M.rematch({(f[1], it) for o in checks for f, it, _, _ in o if f[0] == "pat"})
    ans = answers()
    found, seen = [], set()
    bad = 0
    for c, a, o, mt in zip(cases, ans, checks, meta):
        bad += "bad" in a
        full = M.full(o)
        why = judge(c, a, full, prop)
        if why and mt not in seen:
            seen.add(mt)
            found.append({"case": c, "expected_full_report": full[:20], "got": a, "why": why})
    return found, len(cases) - bad


def hunt_core(prop, deep=False):
    """the helper functions and the collector on a grid of inputs"""
    binary = build()
    vals = ["", "A", "AB", "ABC", "é", "éé", "日本語", " AB ", "AB\n", "\u00a0AB", "a\nb", "x" * 35, "x" * 36, "\U0001F600" * 4, "ABX", "1AB", "12", "123"]
    pats = ["[A-Z]{2,2}", "AB|X", "[0-9]{2}", "(", "", "A.*", "[a-z\\n]+", "^AB$", "\\d+"]
    cases, exp = [], []
    M = Model({}, {})
    M.rematch([(p, v) for p in pats for v in vals])
    valid = dict(zip(pats, re_valid(pats)))
    for ff in (False, True):
        for opt in (False, True):
            for pre in PRES:
                c0 = {"cfg": [ff, opt, not ff], "pre": pre, "p": "Doc.X", "name": "Fld"}
                for v in vals:
                    for mn in (None, 0, 1, 2, 3, 36):
                        for mx in (None, 0, 1, 2, 4, 35):
                            ks = []
                            if mn is not None and len(v) < mn:
                                ks.append(1001)
                            if mx is not None and len(v) > mx and not (ff and ks):
                                ks.append(1002)
                            cases.append({**c0, "op": "length", "value": v, "min": mn, "max": mx}); exp.append((ks, not ks, False))
                    for p in pats:
                        ks = [9999] if not valid[p] else [] if M.rx[(p, v)] else [1005]
                        cases.append({**c0, "op": "pattern", "value": v, "re": p}); exp.append((ks, not ks, not valid[p]))
                for v in (None, 1):
                    cases.append({**c0, "op": "required", "value": v}); exp.append(([] if v else [1003], bool(v), not v))
    for p in ("", "A", "A.B", ".", " ", "é"):
        for n in ("", "X", "é", "a.b"):
            cases.append({"op": "child", "p": p, "name": n}); exp.append(n if p == "" else p + "." + n)
    import itertools
    if prop == "C04":
        for c in cases:
            if c["op"] in ("length", "pattern", "required"):
                c["again"] = True
    for k in range(5):
        for ops in itertools.product([[False, 0], [True, 0], [False, 1], [True, 1]], repeat=k):
            for d in (False, True):
                cases.append({"op": "collector", "ops": list(ops), "default": d}); exp.append(None)
    ans = run(binary, cases)
    found = []
    if prop == "C06":
        groups = {}
        for c, a in zip(cases, ans):
            if c["op"] in ("length", "pattern"):
                groups.setdefault(json.dumps([c["op"], c["value"], c.get("min"), c.get("max"), c.get("re")]), []).append((c, a))
        for g in groups.values():
            if (w := agree(g)):
                found.append({"case": w[1][1], "why": w[0], "cases": w[1], "got": w[2]})
        return found, len(cases)
    for c, a, e in zip(cases, ans, exp):
        why = None
        if "panic" in a:
            why = "panicked: " + a["panic"]
        elif c["op"] == "child":
            if a["ret"] != e and prop in ("C03", "C02"):
                why = f"child path is {a['ret']!r}, expected {e!r}"
        elif c["op"] == "collector":
            want = [[i, f"f{i}", f"p{i}", f"m{i}"] for _, i in c["ops"]]
            crits = [x for x, _ in c["ops"]]
            seen = [[i + 1, True, any(crits[:i + 1])] for i in range(len(crits))]
            if prop in ("C04", "C03", "C07") and (a["errs"] != want or a["seen"] != seen or a["crit"] != any(crits) or a["has"] != bool(want) or a["count"] != len(want)):
                why = "the collector does not hold exactly what was added"
        else:
            ks, ret, always = e
            ff, crit0 = c["cfg"][0], any(c["pre"])
            stopped = ff and crit0
            pre = [[7000 + i, f"F{i}", f"P{i}", f"before {i}"] for i in range(len(c["pre"]))]
            new = a["errs"][len(pre):]
            if stopped:
                ks, ret = [], False
            want = [[k, c["name"], c["p"]] for k in ks]
            got = [n[:3] for n in new]
            crit = crit0 or (bool(ks) and (ff or always))
            if prop == "C03" and (got != want or a["ret"] != ret):
                why = f"returned {a['ret']} and recorded {got}, expected {ret} and {want}"
            elif prop == "C01" and c["op"] != "required" and not stopped and bool(got) != bool(ks):
                why = f"recorded {got}, expected {want}"
            elif prop == "C02" and not ff and c["op"] != "required" and sorted(map(str, got)) != sorted(map(str, want)):
                why = f"recorded {got}, expected {want}"
            elif prop == "C04" and "second" in a and a["second"]["errs"][:len(a["errs"])] != a["errs"]:
                why = f"errors collected before the second call changed: {a['second']['errs']}, had {a['errs']}"
            elif prop in ("C04", "C03") and (a["errs"][:len(pre)] != pre or a["crit"] != crit):
                why = f"earlier errors or critical flag wrong (critical={a['crit']}, expected {crit})"
            elif prop == "C05" and ff and c["op"] != "required" and (len(got) != (1 if ks else 0) or (got and (not a["crit"] or got[0] not in want))):
                why = f"fail-fast recorded {got} (critical={a['crit']}), expected {want}"
        if why:
            found.append({"case": c, "got": a, "why": why})
    return found, len(cases)
