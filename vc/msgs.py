"""Concrete runs for C08-C15: an independent reading of the contracts, inputs, and verdicts."""
import random
from .env import *
from . import harness

KT, KE = {}, {}
for _i, _r in enumerate(ROWS):
    KT[_r["short"]] = KT[_r["full"]] = _i
    KE[_r["element"]] = KE[_r["rust"]] = _i
ALIAS = {"FinInstnCdtTrf": "pacs.009", "Rct": "camt.025", "ClmNonRct": "camt.027", "ClaimNonReceiptV07": "camt.027"}


def norm(s):
    return ROWS[KT[s]]["short"] if s in KT else s


def nsof(s):
    return URN + (ROWS[KT[s]]["full"] if s in KT else s)


def binary():
    srcs = take({"mx_envelope": BASE["mx_envelope"]})
    vs = variants(srcs[0].text)
    rows = [module_of(r) + "::" + r["rust"] for r in ROWS]
    return harness.build(harness.gen_docs([(v, row_of(m, t)) for v, m, t in vs], rows) if vs else None)


def literals(files):
    """string literals of the current sources: inputs a special case may wait for"""
    out = set()
    for f in files:
        p = f"{REPO}/src/{f}.rs"
        if os.path.exists(p):
            for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', read(p).split("#[cfg(test)]")[0]):
                try:
                    out.add(json.loads('"' + m.group(1) + '"'))
                except Exception:
                    pass
            out |= set(re.findall(r"'(\S)'", read(p)))
    return sorted(out)


def runs(b, cases):
    """answers in order, on all cores"""
    n = max(1, (len(cases) + 7) // 8)
    outs = pool([lambda i=i: harness.run(b, cases[i:i + n]) for i in range(0, len(cases), n)])
    return [a for o in outs for a in o]


def near(names, rng, deep=False):
    """names, and texts that are almost names"""
    out = list(names) + ["", " ", ".", "é", "Unknown", "Document", "xml", "pacs", "pacs.", "camt.027", "camt.999", "urn:iso:std:iso:20022:tech:xsd:"]
    for n in names:
        out += [n + " ", " " + n, n.lower(), n.upper(), n[:-1], n[1:], n + ".", n + "\n", n + "é", "x" + n, n + n, n.replace(".", ""), n.replace(".", "_"), URN + n, n + "V01", n[:8], n[:8] + ".001.99", "<" + n, n + ">", ":" + n]
        out += [f"p{c}{n}" for c in (SEPS if deep else rng.sample(SEPS, 5))] + [f"{n}{c}p" for c in (SEPS if deep else rng.sample(SEPS, 3))]
        k = rng.randrange(len(n)) if n else 0
        out += [n[:k] + rng.choice("abzA09.é") + n[k + 1:], n.swapcase()]
        if deep:
            for k in range(len(n)):
                out += [n[:k] + c + n[k + 1:] for c in "aZ0.é "] + [n[:k] + n[k + 1:]]
    return list(dict.fromkeys(out + list(wide())[::9]))


ALLNAMES = [r[k] for r in ROWS for k in ("short", "full", "element", "rust")]


# ------------------------------------------------------------------ C08
def hunt_lookup(deep=False):
    b = binary()
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    S = near(ALLNAMES, rng, deep) + literals(["message_registry", "mx_envelope", "plugin/common", "xml"]) + list(ALIAS)
    cases = [{"op": "reg", "s": s} for s in dict.fromkeys(S)]
    out = []
    for c, a in zip(cases, runs(b, cases)):
        s = c["s"]
        t, e = KT.get(s), KE.get(s)
        g = lambda i, k: None if i is None else ROWS[i][k]
        want = {"ns": nsof(s), "norm": norm(s), "e2t": g(e, "short"), "t2e": g(t, "element"), "t2u": g(t, "rust"), "full": g(t, "full"), "ns2": nsof(s), "norm2": norm(s)}
        if a != want:
            out.append({"case": c, "answer": a, "why": f"lookups of {s!r}: " + (a.get("panic") or str({k: (a.get(k), v) for k, v in want.items() if a.get(k) != v}))})
    return out, len(cases)


# ------------------------------------------------------------------ texts, as the contracts read them
WS = "".join(map(chr, list(range(9, 14)) + [0x20, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]))
DECL = '<?xml version="1.0" encoding="UTF-8"?>'


def sect(x, tag):
    a = x.find("<" + tag)
    g = x.find(">", a) if a >= 0 else -1
    e = x.find("</" + tag + ">")
    return x[g + 1:e] if a >= 0 and g >= 0 and e >= 0 and g + 1 < e else None


def root_row(d):
    t = d.strip(WS)
    if not t.startswith("<"):
        return None
    for i in range(1, len(t)):
        if t[i] in WS or t[i] == ">":
            return KE.get(t[1:i])
    return None


def is_env(x):
    return "<AppHdr" in x or "<Envelope" in x


def doc_inner(x):
    t = x.strip(WS)
    while t.startswith(DECL):
        t = t[len(DECL):]
    t = t.strip(WS)
    a = t.find("<Document")
    g = t.find(">", a) if a >= 0 else -1
    e = t.rfind("</Document>")
    return (t[g + 1:e] if a >= 0 and g >= 0 and e >= g + 1 else t).strip(WS)


def map_elem(n):
    return ROWS[KE[n]]["short"] if n in KE else ALIAS.get(n)


def emt_xml(x):
    x = x.strip(WS)
    a = x.find("<Document")
    g = x.find(">", a) if a >= 0 else -1
    if g < 0:
        return None
    t = x[g + 1:]
    s = t.find("<")
    if s < 0 or s + 1 >= len(t) or t[s + 1] == "/":
        return None
    t = t[s + 1:]
    n = next((i for i, c in enumerate(t) if c in WS or c in ">/"), len(t))
    return map_elem(t[:n].rsplit(":", 1)[-1])


def peek_xml(x):
    m = re.search(r"<MsgDefIdr>([^<]+)</MsgDefIdr>", x)
    return norm(m.group(1)) if m else None


def emt_json(v):
    if not isinstance(v, dict):
        return None
    if isinstance(v.get("message_type"), str):
        return v["message_type"]
    d = v.get("Document")
    return map_elem(min(d)) if isinstance(d, dict) and d else None


def peek_json(v):
    if not isinstance(v, dict):
        return None
    if "AppHdr" in v:
        h = v["AppHdr"]
    elif isinstance(v.get("Envelope"), dict) and "AppHdr" in v["Envelope"]:
        h = v["Envelope"]["AppHdr"]
    else:
        return None
    m = h.get("MsgDefIdr") if isinstance(h, dict) else None
    return norm(m) if isinstance(m, str) else None


def renamed(t, u, e):
    return t.replace(f"<{u}>", f"<{e}>").replace(f"</{u}>", f"</{e}>")


# ------------------------------------------------------------------ messages
NASTY = ["a<b>&c;\"'", "</Document>", "<AppHdr>x</AppHdr>", "<Document>", "\\n", "é日本\U0001f600", "]]>", "x\ny", "<MsgDefIdr>pacs.002</MsgDefIdr>", "A", "FIToFICstmrCdtTrf", "</AppHdr>"]


class Data:
    """messages of every registered type"""
    def __init__(self):
        from .docs import module_list
        want = {"document::" + module_of(r) for r in ROWS} | {"header::bah_pacs_008_001_08"}
        ml = [(m, f) for m, f in module_list() if m in want]
        ex = extract([{"file": f"{REPO}/{f}", "drop": [], "keep_fns": [], "log": [], "fmt": True} for _, f in ml])
        self.schemas = {m: e.get("schema") or {} for (m, f), e in zip(ml, ex)}
        self.M = harness.Model(json.loads(read(CONTRACTS, "schema.json")), self.schemas)
        self.rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))

    def strings(self, v, f):
        if isinstance(v, str):
            return f(v)
        if isinstance(v, list):
            return [self.strings(x, f) for x in v]
        if isinstance(v, dict):
            return {k: self.strings(x, f) for k, x in v.items()}
        return v

    def header(self, row, kind=0):
        h = self.M.minimal("header::bah_pacs_008_001_08", "BusinessApplicationHeaderV02")
        h["MsgDefIdr"] = ROWS[row]["full"] if kind % 2 == 0 else ROWS[row]["short"]
        return h

    def bodies(self, row, deep=False):
        r = ROWS[row]
        m, t = "document::" + module_of(r), r["rust"]
        vs = self.M.values(m, t, False)
        out = vs[:1] + (vs[-20:] if not deep else vs)
        rng = self.rng
        enumlike = lambda s: len(s) == 4 and s.isupper()
        for _ in range(6 if not deep else 40):
            out.append(self.strings(rng.choice(vs), lambda s: s if enumlike(s) or rng.random() < .6 else rng.choice(NASTY)))
        return [v for v in out if isinstance(v, dict)]

    def messages(self, deep=False):
        """[(row, message)]"""
        out = []
        for row, r in enumerate(ROWS):
            for n, b in enumerate(self.bodies(row, deep)):
                h = self.header(row, n)
                if n % 3 == 1:
                    h = self.strings(h, lambda s: s if len(s) < 12 and s.isupper() else self.rng.choice(NASTY + [s, s]))
                if n % 5 == 2:
                    h["MsgDefIdr"] = self.rng.choice(["pacs.008", "xxx", ROWS[(row + 7) % len(ROWS)]["full"], ""])
                m = {"AppHdr": h, "Document": {r["element"]: b}}
                if n % 4 == 3:
                    m["@xmlns"] = "urn:x"; m["@xmlns:xsi"] = "http://y"
                out.append((row, m))
        return out


def judge_msg(row, m, a, prop):
    """one message through every conversion"""
    r = ROWS[row]
    if "panic" in a:
        return "panic: " + a["panic"]
    if "unread" in a:
        return None
    h = m["AppHdr"]["MsgDefIdr"]
    w = {}
    if prop in ("C08", "C09"):
        w = {"type": h, "ns": nsof(h), "docns": URN + r["full"], "row": row}
    bad = {k: (a.get(k), v) for k, v in w.items() if a.get(k) != v}
    if bad:
        return f"{r['short']}: {bad}"
    v = a.get("val") or {}
    if prop == "C09" and a.get("val") is not None and list((v.get("Document") or {"?": 0}).keys()) != [r["element"]]:
        return f"{r['short']}: JSON document is under {list(v.get('Document') or {})}"
    if a.get("ser") is not None and a.get("hdr") is not None:
        body = renamed(a["ser"], r["rust"], r["element"])
        if a.get("xml") is None:
            return f"{r['short']}: to_xml fails on a message whose parts serialise" if prop == "C10" else None
        x = a["xml"]
        if prop == "C09":
            i = x.find("<Document>")
            if not x[i + 10:].startswith("<" + r["element"] + ">") and not x[i + 10:].startswith("<" + r["element"] + "/>") and a["ser"].startswith("<" + r["rust"] + ">"):
                return f"{r['short']}: written under {x[i:i + 60]!r}"
            if body not in x:
                return f"{r['short']}: the document is not written as its own structure"
            if "back" in a and a["back"] != row and root_row(body) == row:
                return f"{r['short']}: read back as row {a['back']}"
        if prop == "C10":
            want = DECL + "<Envelope>" + renamed(a["hdr"], "BusinessApplicationHeaderV02", "AppHdr") + "<Document>" + body + "</Document></Envelope>"
            if x != want:
                k = next((i for i, (p, q_) in enumerate(zip(x, want)) if p != q_), min(len(x), len(want)))
                return f"{r['short']}: to_xml differs from the frame at {k}: {x[max(0, k - 30):k + 40]!r}, expected {want[max(0, k - 30):k + 40]!r}"
    elif prop == "C10" and a.get("xml") is not None:
        return f"{r['short']}: to_xml succeeds although a part does not serialise"
    return None


# ------------------------------------------------------------------ XML texts
PIECES = ["<Document", "<Document>", "</Document>", "<AppHdr>", "<AppHdr", "</AppHdr>", "<Envelope>", "<Envelope", "</Envelope>", ">", "<", "/", " ", "\n", "\t", "é", "日", "\u00a0", "\u2003", "\u001f", "xmlns=\"", "xmlns:xsi=\"", "\"", ":", "</", "/>", "a", DECL, "<MsgDefIdr>", "</MsgDefIdr>", "pacs.008.001.08", "<!--", "-->", "<FIToFICstmrCdtTrf>", "<n:Rct ", "<Rcpt/>", "<camt.025>", "="]


def envelope(h, d, rng):
    pre = rng.choice(["", DECL, DECL + "\n", "<?xml version='1.0'?>", "\ufeff", "  "])
    o = rng.choice(["<Envelope>", "<Envelope xmlns=\"urn:e\" xmlns:xsi=\"http://i\">", "", "<ns:Envelope>"])
    c = "</Envelope>" if o.startswith("<Env") else ""
    hs = rng.choice(["<AppHdr>", "<AppHdr xmlns=\"urn:head\">", "<AppHdr\n a='>'>"])
    ds = rng.choice(["<Document>", "<Document xmlns=\"urn:d\">", "<Document >", "<Document\txmlns:n='u'>"])
    gap = rng.choice(["", "\n", "  ", "\n\t"])
    parts = [hs + h + "</AppHdr>", ds + gap + d + gap + "</Document>"]
    if rng.random() < .1:
        parts.reverse()
    if rng.random() < .08:
        parts.append(rng.choice(parts))
    return pre + o + gap.join(parts) + c


def elem_forms(name, rng):
    for p in ("", "n:", "urn:a:", ":", "a.b-c:"):
        for s in (">", " >", "/>", "\n>", "\t>", " a='b'>", " xmlns:n=\"x:y\">", "\u00a0>", "\u2003x>", "", " ", "/", "é>"):
            yield f"<{p}{name}{s}"


SEPS = list("-._|#/:@\\,;=+*~$%&!?^'()[]{}0x") + ["é", "日", "::", " ", "\n", "]]>"]


def wide():
    """long texts of multi-byte characters, at every alignment"""
    for n in (9, 17, 33, 65, 101, 129, 201, 257, 513, 1025):
        for o in range(4):
            for c in "é日😀":
                yield "a" * o + c * (n // len(c.encode()) + 1)


def spans(x):
    """the elements of a well-formed text: (start, end, name)"""
    out, st = [], []
    for m in re.finditer(r"<(/?)([^\s<>/]+)[^<>]*?(/?)>", x):
        if m.group(1):
            if st:
                n, a = st.pop(); out.append((a, m.end(), n))
        elif m.group(3):
            out.append((m.start(), m.end(), m.group(2)))
        else:
            st.append((m.group(2), m.start()))
    return out


def texts(b, D, deep=False, msgs=None):
    """XML texts: (text, ...) from real messages, mutations and fragments"""
    rng = D.rng
    msgs = msgs or D.messages()
    keep = {}
    for row, m in msgs:
        keep.setdefault(row, []).append(m)
    pick = [(row, m) for row in keep for m in keep[row][:6]]
    ans = runs(b, [{"op": "msg", "v": m} for _, m in pick])
    good = []
    X = []
    for (row, m), a in zip(pick, ans):
        if a.get("ser") is None or a.get("hdr") is None:
            continue
        d = renamed(a["ser"], ROWS[row]["rust"], ROWS[row]["element"])
        h = re.sub(r"^<[^>]*>|</[^>]*>$", "", a["hdr"])
        good.append((row, h, d))
        X.append(a.get("xml") or "")
        X.append("<Document>" + d + "</Document>")
    for row, h, d in good:
        el = ROWS[row]["element"]
        for _ in range(3 if not deep else 12):
            X.append(envelope(h, d, rng))
            other = rng.choice(ROWS)["element"]
            X.append(envelope(h, d.replace(f"<{el}>", f"<{other}>").replace(f"</{el}>", f"</{other}>"), rng))
            X.append(envelope(h, d.replace(f"<{el}", f"<n:{el}").replace(f"</{el}", f"</n:{el}"), rng))
            X.append(rng.choice(["", DECL, DECL + DECL, "\n" + DECL + " "]) + rng.choice(["<Document>", "<Document xmlns='u'>", "<Document\n>"]) + rng.choice(["", " \n", "<!-- c -->"]) + d.replace(f"<{el}>", f"<{rng.choice([el, el, 'n:' + el, other, el + ' a=\"1\"'])}>", 1) + rng.choice(["", "</Document>", "</Document></Document>", "<x/></Document> "]))
        X.append(d); X.append(h); X.append(DECL + d)
    base = [x for x in X if x]
    for _ in range(400 if not deep else 4000):
        x = rng.choice(base)
        k = rng.random()
        i, j = sorted((rng.randrange(len(x) + 1), rng.randrange(len(x) + 1)))
        if k < .25:
            X.append(x[:i])
        elif k < .4:
            X.append(x[i:])
        elif k < .6:
            X.append(x[:i] + rng.choice(PIECES) + x[i:])
        elif k < .75:
            X.append(x[:i] + x[min(len(x), i + rng.randrange(1, 12)):])
        elif k < .85:
            X.append(x[i:j] + x[:i] + x[j:])
        else:
            t = rng.choice(PIECES)
            X.append(x.replace(t, rng.choice(PIECES)))
    # every cut around the markers of one short message
    row, h, d = min(good, key=lambda g: len(g[1]) + len(g[2])) if good else (0, "", "")
    x = "é<Envelope xmlns=\"u\"><AppHdr>" + h[:40] + "</AppHdr><Document>" + d[:40] + "日</Document></Envelope>"
    X += [x[:i] for i in range(len(x))] + [x[i:] for i in range(len(x))]
    for _ in range(1500 if not deep else 20000):
        X.append("".join(rng.choice(PIECES) for _ in range(rng.randrange(1, 9))))
    lits = [l for l in literals(["mx_envelope", "xml", "plugin/common", "plugin/parse", "plugin/validate"]) if l]
    for l in lits:
        X += [l, "<Document>" + l, "<Document><" + l + ">", "<AppHdr>" + l + "</AppHdr><Document><" + l + "></Document>", "<" + l + "></" + l + ">"]
    for n in dict.fromkeys([r["element"] for r in ROWS] + [r["rust"] for r in ROWS] + list(ALIAS) + ["Unknown", "GrpHdr", ROWS[0]["short"]]):
        for f in elem_forms(n, rng):
            k = rng.randrange(4)
            X.append(["<Document>" + f, "<Document xmlns=\"urn:iso:x\">\n" + f + "<a/></" + n + "></Document>", "<AppHdr>h</AppHdr><Document> " + f + "</Document>", " <Document>" + f + "</Document>"][k])
    for r in ROWS:
        for c in SEPS:
            e = r["element"]
            X += [f"<Document><p{c}{e}>", f"<Document><{e}{c}p>"]
            if rng.random() < .2:
                X += [f"<AppHdr>h</AppHdr><Document><p{c}{e}/></Document>", f"<AppHdr>h</AppHdr><Document><{e}{c}p/></Document>", f"<Document{c}><{e}>", f"<Doc{c}ument><{e}>", f"<Document><p{c}q:{e}>"]
    for w in wide():
        e = rng.choice(ROWS)["element"]
        h = min(good, key=lambda g: len(g[1]))[1] if good else "h"
        X += [w, f"<Document><{w}/></Document>", f"<AppHdr>{h}</AppHdr><Document><{w}></Document>", f"<AppHdr>{h}</AppHdr><Document>{w}</Document>", f"<AppHdr>{h}</AppHdr><Document><{e}>{w}</{e}></Document>", f"<AppHdr>{h}</AppHdr><Document><{e}><{w}/></{e}></Document>", f"<AppHdr>{w}</AppHdr><Document><{e}>{w}</{e}></Document>", f"<Document><{e}>{w}</{e}></Document>", f"<Document><n:{w}>", f"<{w}>", f"<AppHdr><MsgDefIdr>{w}</MsgDefIdr></AppHdr>", f"<Document {w}><{e}>", f"<Document><{e}><{w}/></{e}>"]
    # messages without one of their elements, for each element name once
    done = set()
    for row, h, d in good:
        for a, z, n in spans(d):
            if (row, n) not in done:
                done.add((row, n))
                X.append(rng.choice(["<Document>%s</Document>", "<AppHdr>" + h + "</AppHdr><Document>%s</Document>"]) % (d[:a] + d[z:]))
        for a, z, n in spans("<AppHdr>" + h + "</AppHdr>"):
            if ("", row, n) not in done:
                done.add(("", row, n))
                t = "<AppHdr>" + h + "</AppHdr>"
                X.append(t[:a] + t[z:] + f"<Document>{d}</Document>")
    for row, h, d in good[::5]:
        w = rng.choice(list(wide()))
        X += [re.sub(r">[^<>]+<", lambda m: f">{w}<" if rng.random() < .2 else m.group(0), envelope(h, d, rng)), "<Document>" + re.sub(r">[^<>]+<", lambda m: f">{w}<" if rng.random() < .2 else m.group(0), d) + "</Document>"]
    return list(dict.fromkeys(X)), good


def hunt_msgs(prop, deep=False):
    b = binary()
    D = Data()
    ms = D.messages(deep)
    out = []
    cases = [{"op": "msg", "v": m} for _, m in ms]
    read_ = [0] * len(ROWS)
    for (row, m), c, a in zip(ms, cases, runs(b, cases)):
        read_[row] += "unread" not in a
        why = judge_msg(row, m, a, prop)
        if why:
            out.append({"case": c, "answer": a, "why": why})
    if prop == "C09":
        out += [{"case": {"op": "msg"}, "answer": None, "why": f"no JSON message of {r['short']} under its element {r['element']} can be read"} for r, n in zip(ROWS, read_) if not n]
    n = len(cases)
    if out and not deep:
        return out, n
    X, good = texts(b, D, deep, ms)
    o, k = (hunt_tables if prop == "C09" else hunt_framing)(b, X, good, deep)
    return out + o, n + k


def hunt_tables(b, X, good, deep):
    """each text, read as each type"""
    out, types = [], [r["short"] for r in ROWS]
    odd = ["camt.027", "", "pacs.008 ", "PACS.008", "xxx", "pacs.00", "camt.999", "FIToFICstmrCdtTrf", "Unknown", "Document"]
    seen, docs = {}, []
    for row, h, d in good:
        if seen.setdefault(row, 0) < (2 if not deep else 6):
            seen[row] += 1
            docs.append((row, "<Document>" + d + "</Document>"))
    docs += [(None, x) for x in ("<Document></Document>", "", "<a/>", "<Document><a/></Document>", "<Rcpt/>")]
    cases = [{"op": "rows", "x": x, "types": types + odd} for _, x in docs]
    de = [{"op": "de", "n": n, "s": doc_inner(x)} for _, x in docs for n in range(len(ROWS))]
    ans, want = runs(b, cases), runs(b, de)
    for k, ((row, x), c, a) in enumerate(zip(docs, cases, ans)):
        if "panic" in a:
            out.append({"case": c, "answer": a, "why": "panic: " + a["panic"]}); continue
        for n, t in enumerate(types):
            w = want[k * len(ROWS) + n]
            g = a["types"][t]
            if "bad" in w or "panic" in w:
                continue
            exp = {"Document": {ROWS[n]["element"]: w["v"]}} if w["ok"] else None
            if g["via"] != exp or g["env"] != w["ok"]:
                out.append({"case": {**c, "types": [t]}, "answer": g, "expected": exp, "why": f"Document-only text{'' if row is None else ' of ' + ROWS[row]['short']} read as {t}: {'accepted' if g['via'] is not None else 'rejected'}, its own structure {'accepts' if w['ok'] else 'rejects'} it" + (" with another result" if exp and g["via"] and g["via"] != exp else "")})
                break
        for t in odd:
            if a["types"][t]["via"] is not None or a["types"][t]["env"]:
                out.append({"case": {**c, "types": [t]}, "answer": a["types"][t], "why": f"unregistered type {t!r} accepted"})
                break
    # envelopes: the element decides the structure
    cs, meta = [], []
    for row, h, d in good[:: 1 if deep else 3]:
        el = ROWS[row]["element"]
        for n, r in enumerate(ROWS):
            for e in (r["element"], r["rust"]):
                dd = d.replace(f"<{el}>", f"<{e}>").replace(f"</{el}>", f"</{e}>")
                cs.append({"op": "xml", "x": f"<AppHdr>{h}</AppHdr><Document>{dd}</Document>"}); meta.append((n, dd, h))
    de = runs(b, [{"op": "de", "n": n, "s": dd} for n, dd, h in meta])
    for c, a, w, (n, dd, h) in zip(cs, runs(b, cs), de, meta):
        if "panic" in a or "bad" in w:
            continue
        got = None if a["msg"] is None else a["msg"].get("Document")
        if "</Document>" in dd or (got is not None) != w["ok"] and got is None and "</AppHdr>" in h:
            continue
        exp = {ROWS[n]["element"]: w["v"]} if w["ok"] else None
        if got != exp and not (got is None and root_row(dd) is None):
            out.append({"case": c, "answer": got, "expected": exp, "why": f"envelope with element of {ROWS[n]['short']} read as {list(got or {})}, expected {list(exp or {})}" if list(got or {}) != list(exp or {}) else f"envelope of {ROWS[n]['short']} read with another structure"})
    return out, len(cases) * len(types) + len(cs)


def hunt_framing(b, X, good, deep):
    """every text: what from_xml hands to the parsers"""
    out = []
    ask, idx = [], {}
    def want(c):
        k = json.dumps(c)
        if k not in idx:
            idx[k] = len(ask); ask.append(c)
        return idx[k]
    plan = []
    for x in X:
        h, d = sect(x, "AppHdr"), sect(x, "Document")
        row = root_row(d) if d is not None else None
        if is_env(x) and h is not None and row is not None:
            plan.append((want({"op": "hdr", "s": "<AppHdr>" + h + "</AppHdr>"}), want({"op": "de", "n": row, "s": d}), row))
        else:
            plan.append(None)
    cases = [{"op": "xml", "x": x} for x in X]
    ans, par = runs(b, cases), runs(b, ask)
    for c, a, p in zip(cases, ans, plan):
        if "panic" in a:
            out.append({"case": c, "answer": a, "why": "panic: " + a["panic"]}); continue
        if p and ("bad" in par[p[1]] or "panic" in par[p[1]] or "panic" in par[p[0]]):
            continue
        exp = None
        if p and par[p[0]]["ok"] and par[p[1]]["ok"]:
            exp = {"AppHdr": par[p[0]]["v"], "Document": {ROWS[p[2]]["element"]: par[p[1]]["v"]}}
        got = None if a["msg"] is None else {k: a["msg"].get(k) for k in ("AppHdr", "Document")}
        if got != exp:
            out.append({"case": c, "answer": got, "expected": exp, "why": f"from_xml {'reads' if got else 'rejects'} a text of which the sections {'read differently' if got and exp else 'do not read' if got else 'read'}"})
    # Document-only reading
    cs, ws, ask = [], [], []
    for x in X:
        if not is_env(x):
            t = emt_xml(x)
            if t in KT:
                cs.append({"op": "rows", "x": x, "types": [t]}); ask.append({"op": "de", "n": KT[t], "s": doc_inner(x)})
    for c, a, w in zip(cs, runs(b, cs), runs(b, ask)):
        if "panic" in a or "bad" in w or "panic" in w:
            continue
        t = c["types"][0]
        exp = {"Document": {ROWS[KT[t]]["element"]: w["v"]}} if w["ok"] else None
        if a["types"][t]["via"] != exp:
            out.append({"case": c, "answer": a["types"][t]["via"], "expected": exp, "why": f"Document-only text of {t} read differently from the text between its Document tags"})
    return out, len(cases) + len(cs)
