"""Concrete runs for C11-C15."""
from .msgs import *

DROPT = ("timestamp",)


def flat(v):
    """floats compare to 12 digits"""
    if isinstance(v, float):
        return float(f"{v:.12g}")
    if isinstance(v, list):
        return [flat(x) for x in v]
    if isinstance(v, dict):
        return {k: flat(x) for k, x in v.items()}
    return v


def fld(v, k):
    return v.get(k) if isinstance(v, dict) else None


# ------------------------------------------------------------------ what the library can read
class Reader:
    """the value a text holds, from its sections as the contracts read them and the dependencies' parsers"""
    def __init__(self, b):
        self.b, self.ask, self.idx, self.ans = b, [], {}, []

    def want(self, c):
        k = json.dumps(c)
        if k not in self.idx:
            self.idx[k] = len(self.ask); self.ask.append(c)
        return self.idx[k]

    def plan(self, x):
        if is_env(x):
            h, d = sect(x, "AppHdr"), sect(x, "Document")
            row = root_row(d) if d is not None else None
            if h is None or row is None:
                return None
            return ("env", self.want({"op": "hdr", "s": "<AppHdr>" + h + "</AppHdr>"}), self.want({"op": "de", "n": row, "s": d}), row)
        t = emt_xml(x)
        if t not in KT:
            return None
        return ("doc", self.want({"op": "de", "n": KT[t], "s": doc_inner(x)}), KT[t])

    def go(self):
        self.ans = runs(self.b, self.ask)

    def value(self, p):
        """(readable, JSON) or None when it is not known"""
        if p is None:
            return False, None
        a = [self.ans[i] for i in p[1:-1]]
        if any("bad" in x or "panic" in x for x in a):
            return None
        if not all(x["ok"] for x in a):
            return False, None
        d = {"Document": {ROWS[p[-1]]["element"]: a[-1]["v"]}}
        return True, ({"AppHdr": a[0]["v"], **d} if p[0] == "env" else d)


def unesc(x):
    return x.replace("\\n", "\n")


def body_of(v):
    return None if v is None else {k: v.get(k) for k in ("AppHdr", "Document") if k in v}


# ------------------------------------------------------------------ JSON values
def json_values(D, deep):
    rng = D.rng
    els = [r["element"] for r in ROWS]
    names = near(els, rng)[:: 1 if deep else 7] + els + [r["rust"] for r in ROWS] + list(ALIAS) + ["Foo", "", "AppHdr", "Document"]
    S = ["pacs.008", "pacs.008.001.08", "xxx", "", "é", "camt.027", "FIToFICstmrCdtTrf"]
    odd = [None, True, 1, 1.5, "x", "", [], ["a"], {}, {"a": 1}, [{"Document": {"Rcpt": {}}}]]
    out = list(odd)
    for o in odd:
        out += [{"message_type": o}, {"Document": o}, {"AppHdr": o}, {"Envelope": o}, {"message_type": o, "Document": {els[0]: {}}}, {"AppHdr": o, "Envelope": {"AppHdr": {"MsgDefIdr": "pacs.009.001.08"}}}]
        for e in els[:3]:
            out += [{"Document": {e: o}}, {"Document": {e: o}, "message_type": "pacs.002"}]
        w = rng.choice(list(wide()))
        out += [{"message_type": w}, {"Document": {w: o}}, {"AppHdr": {"MsgDefIdr": w}}, {"Envelope": {w: o}}]
        for m in odd:
            out += [{"AppHdr": {"MsgDefIdr": o}, "Envelope": m}, {"Envelope": {"AppHdr": o, "x": m}}, {"Envelope": {"AppHdr": {"MsgDefIdr": m}}, "x": o}]
    for n in names:
        out += [{"Document": {n: {}}}, {"Document": {n: {"message_type": "x"}, "zzz": 1}}, {"Document": {n: 1, "AAA": {}}}]
        k = rng.choice(S)
        out += [{"message_type": k, "Document": {n: {}}}, {"Document": {n: {}, rng.choice(els): {}}}, {"AppHdr": {"MsgDefIdr": n}, "Document": {rng.choice(els): {}}}]
    for r in ROWS:
        for s in (r["short"], r["full"], r["full"] + " ", r["element"], r["short"][:-1], r["full"][:-3]):
            out += [{"AppHdr": {"MsgDefIdr": s}}, {"Envelope": {"AppHdr": {"MsgDefIdr": s}}}, {"message_type": s}, {"AppHdr": {"MsgDefIdr": s, "BizMsgIdr": "1"}, "Envelope": {"AppHdr": {"MsgDefIdr": "zz"}}},
                    {"Envelope": {"MsgDefIdr": s}}, {"MsgDefIdr": s}, {"Document": {"AppHdr": {"MsgDefIdr": s}}}]
    return out


# ------------------------------------------------------------------ C12
def hunt_detect(deep=False):
    b, D, out = binary(), Data(), []
    X, good = texts(b, D, deep)
    for x in X[:400]:
        X.append(x.replace("<Document", "<n:Document"))
    lits = literals(["mx_envelope", "plugin/common", "plugin/parse", "plugin/validate"])
    for r in ROWS:
        for p in ("", "n:", "a:b:"):
            for s in (">", " a='1'>", "\n>", "\t/>", "/>", "\u3000>", ""):
                X.append(f"<Document>{rng_ws(D.rng)}<{p}{r['element']}{s}")
        for m in (r["short"], r["full"], r["full"].lower() + "x"):
            for f in ("<MsgDefIdr>%s</MsgDefIdr>", "<AppHdr><MsgDefIdr>%s</MsgDefIdr></AppHdr><MsgDefIdr>q</MsgDefIdr>", "<MsgDefIdr> %s </MsgDefIdr>", "<h:MsgDefIdr>%s</h:MsgDefIdr>", "<MsgDefIdr>%s", "<MsgDefIdr></MsgDefIdr><MsgDefIdr>%s</MsgDefIdr>", "<MsgDefIdr a=''>%s</MsgDefIdr>"):
                X.append(f % m)
    X = list(dict.fromkeys(X))
    cases = [{"op": "xml", "x": x} for x in X]
    for c, a in zip(cases, runs(b, cases)):
        x = c["x"]
        if "panic" in a:
            out.append({"case": c, "answer": a, "why": "panic: " + a["panic"]}); continue
        for k, w in (("emt", emt_xml(x)), ("peek", peek_xml(x))):
            if a[k] != w:
                out.append({"case": c, "answer": {k: a[k]}, "expected": w, "why": f"{ {'emt': 'extract_message_type_from_xml', 'peek': 'peek_message_type_from_xml'}[k]} gives {a[k]!r}, expected {w!r}, for {x[:120]!r}"})
                break
    n = len(cases)
    V = json_values(D, deep)
    cases = [{"op": "json", "v": v} for v in V]
    for c, a in zip(cases, runs(b, cases)):
        if "panic" in a:
            out.append({"case": c, "answer": a, "why": "panic: " + a["panic"]}); continue
        for k, w in (("emt", emt_json(c["v"])), ("peek", peek_json(c["v"]))):
            if a[k] != w:
                out.append({"case": c, "answer": {k: a[k]}, "expected": w, "why": f"{ {'emt': 'extract_message_type', 'peek': 'peek_message_type_from_json'}[k]} gives {a[k]!r}, expected {w!r}, for {json.dumps(c['v'])[:160]}"})
                break
    n += len(cases)
    names = near([r["element"] for r in ROWS] + [r["rust"] for r in ROWS] + list(ALIAS), D.rng, deep) + lits + [r[k] for r in ROWS for k in ("short", "full")]
    cases = [{"op": "map", "s": s} for s in dict.fromkeys(names)]
    for c, a in zip(cases, runs(b, cases)):
        if a.get("map") != map_elem(c["s"]) or "panic" in a:
            out.append({"case": c, "answer": a, "expected": map_elem(c["s"]), "why": f"element {c['s']!r} maps to {a.get('map')!r}, expected {map_elem(c['s'])!r}"})
    n += len(cases)
    # the type an envelope is read as
    o, k = hunt_framing(b, X, good, deep)
    return out + [x for x in o if x["case"]["op"] == "xml"], n + k


def rng_ws(rng):
    return rng.choice(["", " ", "\n", "\n\t ", "text"])


# ------------------------------------------------------------------ C13
def want_content(data, field, payload):
    """("is", text), ("any",) or ("err",)"""
    if field == "payload":
        return ("is", payload) if isinstance(payload, str) else ("any",)
    if not isinstance(data, dict) or field not in data:
        return ("err",)
    v = data[field]
    if isinstance(fld(v, "mx_message"), str):
        return ("is", v["mx_message"])
    return ("is", v) if isinstance(v, str) else ("err",)


def content_cases(D, deep):
    rng = D.rng
    T = ["", "a", "é日", "\\n", "a\\nb\n", " x ", "\"q\"", "'", "<a/>", "\t", "payload", "\u0000", "\"", "\\\"", "null", "x" * 5000, " \n<a> ", "&amp;", "\\u0041", "\u00a0y\u00a0", "\ufeff<a/>"] + literals(["plugin/common", "plugin/parse", "plugin/validate"])
    odd = [None, True, 0, 1.5, [], ["s"], {}, {"a": "s"}, ["mx_message"], {"mx_message": None}, {"mx_message": 1}, {"mx_message": {}}, {"mx_message": ["x"]}, {"mx_message": {"mx_message": "deep"}}, {"MX_MESSAGE": "x"}, {"xml": "x", "message": "y"}, {"mx_message": None, "content": "x"}]
    F = ["f", "payload", "", "mx_message", "é", "data", "a.b", "Payload", "payload ", "/f", "/payload", "0", "f/g", "message"]
    for t in T:
        for f in F:
            yield {f: t}, f, rng.choice(T)
            yield {f: {"mx_message": t, "x": rng.choice(T)}, "payload": rng.choice(T)}, f, rng.choice(T)
            yield {"x": t, "mx_message": t}, f, rng.choice(odd)
    for o in odd:
        for f in F:
            yield {f: o, "payload": "decoy", "mx_message": "decoy2"}, f, "p"
            yield {f: "t", "a": {"b": "nested"}}, f, o
            yield o, f, "p"
            yield {f + "x": "t"}, f, o
    for _ in range(4000 if deep else 500):
        m = lambda: rng.choice([rng.choice(T), rng.choice(odd), {"mx_message": rng.choice(T + odd), "xml": rng.choice(T)}])
        d = {rng.choice(F): m() for _ in range(rng.randrange(4))}
        yield d, rng.choice(F), rng.choice([m(), rng.choice(T)])


def hunt_content(deep=False):
    b, D, out = binary(), Data(), []
    cases = [{"op": "content", "data": d, "field": f, "payload": p} for d, f, p in content_cases(D, deep)]
    for c, a in zip(cases, runs(b, cases)):
        w = want_content(c["data"], c["field"], c["payload"])
        if "panic" in a:
            out.append({"case": c, "answer": a, "why": "panic: " + a["panic"]})
        elif w[0] == "is" and a["r"] != w[1] or w[0] == "err" and a["r"] is not None or w[0] == "any" and a["r"] is None:
            out.append({"case": c, "answer": a, "expected": w, "why": f"content of field {c['field']!r} is {str(a['r'])[:80]!r}, expected {w[-1][:80] if w[0] == 'is' else w[0]!r}"})
    n = len(cases)
    o, k = hunt_flow("C13", b, D, deep)
    return out + o, n + k


# ------------------------------------------------------------------ C13, C14: handlers
HS = ("parse_mx", "validate_mx", "publish_mx", "generate_mx")


def flow_cases(b, D, deep):
    """handler calls: (case, kind)"""
    rng = D.rng
    ms = D.messages()
    seen, pick = {}, []
    for row, m in ms:
        if seen.setdefault(row, 0) < (2 if not deep else 8):
            seen[row] += 1
            pick.append((row, m))
    ans = runs(b, [{"op": "msg", "v": m} for _, m in pick])
    X, J = [], []
    for (row, m), a in zip(pick, ans):
        if a.get("xml"):
            X += [a["xml"], "<Document>" + renamed(a["ser"], ROWS[row]["rust"], ROWS[row]["element"]) + "</Document>"]
            J.append(m)
    bad = ["", "x", "<Document>", "<AppHdr>", "<Document><Foo/></Document>", "<Document><Rcpt><x/></Rcpt></Document>", X[0][:-40] if X else ""]
    badj = [None, "x", 1, {}, {"AppHdr": {}}, {"Document": {}}, [1]]
    scen = [{"schema": {"a": 1, "b": {"c": "x"}}}, {"variables": {}, "schema": {"k": [1, "2"]}}, {"schema": "s"}, {}, None, "x", 5, [], {"schema": {"fake": ["nope"]}}, {"variables": {"v": "z"}, "schema": {"q": {"var": "v"}}}]
    fields = ["out", "in", "é f", "a.b", "/x", "0", "payload", "", "src", "validation", "result", "message_type"]
    olds = ["absent", None, "old", 1, {"mx_message": "o"}, [1], {"valid": True}]
    lits = [l for l in literals(["plugin/parse", "plugin/validate", "plugin/publish", "plugin/generate"]) if l and len(l) < 30]
    def src(h):
        if h == "publish_mx":
            return rng.choice(J) if rng.random() < .8 else rng.choice(badj)
        x = rng.choice(X) if rng.random() < .75 else rng.choice(bad)
        if rng.random() < .15:
            x = x.replace("A", "\\n", 1)
        return rng.choice([x, x, {"mx_message": x}, {"mx_message": x, "y": 1}, {"xml": x}, [x]]) if rng.random() < .9 else rng.choice(badj)
    N = 150 if not deep else 1500
    for h in HS:
        for k in range(N):
            s, t = rng.choice(fields + lits[:20]), rng.choice(fields + lits[:20])
            if rng.random() < .15:
                t = s
            data = {rng.choice(fields + lits): rng.choice(["keep", 7, {"z": [1]}, None]) for _ in range(rng.randrange(4))}
            o = rng.choice(olds)
            if o == "absent":
                data.pop(t, None)
            else:
                data[t] = o
            data[s] = src(h)
            payload = src(h) if h != "generate_mx" else rng.choice(scen)
            if h != "generate_mx" and rng.random() < .3:
                s = "payload"
            ctx = {"data": data, "metadata": {"m": 1, rng.choice(fields): "q"}, "temp_data": rng.choice([{"t": 2}, {"t": 2, t: 1, s: {"x": 1}}, {k: k for k in fields}])}
            if rng.random() < .4:
                ctx["metadata"].update({t: 5, s: "m", "data": {t: 1}, "progress": {"a": 1}})
            inp, custom = {"source": s, "target": t, "extra": 1}, True
            r = rng.random()
            if r < .05:
                ctx["metadata"] = rng.choice([None, 3, "x", []])
            elif r < .1:
                ctx["data"] = rng.choice([None, 3, "x", [], [{}]])
            elif r < .14:
                ctx.pop(rng.choice(list(ctx)))
            elif r < .16:
                ctx = rng.choice([None, 1, "x", [], {}])
            elif r < .22:
                inp.pop(rng.choice(["source", "target"]))
            elif r < .28:
                inp[rng.choice(["source", "target"])] = rng.choice([None, 1, ["out"], {"a": "b"}, True])
            elif r < .3:
                inp = rng.choice([None, [], "source", 3])
            elif r < .33:
                custom = False
            yield {"op": "flow", "h": h, "context": ctx, "payload": payload, "input": inp, "custom": custom}


def hunt_flow(prop, b, D, deep):
    out = []
    cases = list(flow_cases(b, D, deep))
    R = Reader(b)
    plans, pubs, pidx = [], [], {}
    for c in cases:
        h, inp = c["h"], c["input"] if c["custom"] else {}
        s = fld(inp, "source")
        data = fld(c["context"], "data")
        p = None
        if h in ("parse_mx", "validate_mx") and isinstance(s, str):
            w = want_content(data, s, c["payload"])
            if w[0] == "is":
                x = unesc(w[1]) if h == "parse_mx" else w[1]
                p = ("text", R.plan(x))
            else:
                p = w
        elif h == "publish_mx" and isinstance(s, str):
            if isinstance(data, dict) and s in data:
                p = ("pub", len(pubs)); pubs.append({"op": "msg", "v": data[s]})
            else:
                p = ("err",)
        plans.append(p)
    R.go()
    pa = runs(b, pubs)
    for c, a, p in zip(cases, runs(b, cases), plans):
        h, inp = c["h"], c["input"] if c["custom"] else {}
        no = lambda why, **k: out.append({"case": c, "answer": a, "why": f"{h}: {why}", **k})
        if "panic" in a:
            no("panic: " + a["panic"]); continue
        B, A = c["context"], a["context"]
        t, s = fld(inp, "target"), fld(inp, "source")
        ok = "changes" in a
        need = [t] if h == "generate_mx" else [s, t]
        if ok and not all(isinstance(x, str) for x in need):
            if prop in ("C14",):
                no("succeeds although a required parameter is missing or not text")
            continue
        if not ok:
            if prop == "C14" and A != B:
                no("fails but changes the message data or metadata", expected=B)
            if prop == "C14" and (a["payload"] != c["payload"] or not a["side"]):
                no("fails but changes the message")
            continue
        new = fld(fld(A, "data"), t)
        if prop == "C14":
            old = fld(fld(B, "data"), t)
            if a["changes"] != [["data." + t, old, new]]:
                no(f"reports {json.dumps(a['changes'])[:200]}", expected=[["data." + t, old, new]])
            d = lambda C: {k: v for k, v in (fld(C, "data") or {}).items() if k != t}
            if not isinstance(fld(A, "data"), dict) or t not in A["data"] or d(A) != d(B):
                no("changes another data field, or does not store its result")
            if fld(A, "temp_data") != fld(B, "temp_data") or a["payload"] != c["payload"] or not a["side"]:
                no("changes the temporary data, the payload or the message itself")
            if not a["renewed"] or not a["fresh"]:
                no("the context cache is stale")
        if h == "generate_mx":
            continue
        # what is stored
        if p and p[0] == "err":
            no("succeeds although the source field holds no message")
        elif p and p[0] == "pub":
            w = pa[p[1]]
            if "panic" in w:
                continue
            w = w.get("xml")
            if new != w:
                no("publishes other XML than the message in the source field" if w else "publishes a field that holds no message", expected=w)
        elif p and p[0] == "text":
            r = R.value(p[1])
            if r is None:
                continue
            if h == "validate_mx":
                if fld(new, "valid") != r[0] or (fld(new, "errors") == []) != r[0]:
                    no(f"verdict {json.dumps(new)[:160]} on a source that can{'' if r[0] else 'not'} be read", expected=r[0])
            elif not r[0] or flat(body_of(new)) != flat(r[1]):
                no("stores something else than the message in the source field", expected=r[1])
    return out, len(cases)


def hunt_handlers(deep=False):
    b = binary()
    return hunt_flow("C14", b, Data(), deep)


# ------------------------------------------------------------------ C15
def hunt_verdict(deep=False):
    b, D, out = binary(), Data(), []
    X, good = texts(b, D, deep)
    rng = D.rng
    esc = [x.replace("\n", "\\n") if "\n" in x else x.replace("><", ">\\n<", 2) for x in rng.sample(X, min(len(X), 300 if not deep else 2000))]
    X = list(dict.fromkeys(X + esc + [x for x in ("<Document>\\n<Rcpt/>", "\\n")]))
    R = Reader(b)
    plans = [(R.plan(x), R.plan(unesc(x))) for x in X]
    R.go()
    cases = [{"op": "xml", "x": x} for x in X]
    for c, a, (p, pu) in zip(cases, runs(b, cases), plans):
        if "panic" in a:
            out.append({"case": c, "answer": a, "why": "panic: " + a["panic"]}); continue
        r, ru = R.value(p), R.value(pu)
        v, q_ = a["wf"]["validate"], a["wf"]["parse"]
        no = lambda why, **k: out.append({"case": c, "answer": a["wf"], "why": f"{why} ({c['x'][:100]!r})", **k})
        if "ok" not in v:
            no("validation gives no verdict"); continue
        v = v["ok"]
        if not isinstance(v, dict) or not isinstance(v.get("valid"), bool) or not isinstance(v.get("errors"), list) or v["valid"] != (v["errors"] == []):
            no(f"valid flag and error list disagree: {json.dumps(v)[:160]}"); continue
        if r is not None and v["valid"] != r[0]:
            no(f"reported {'valid' if v['valid'] else 'invalid'}, but the library can{'' if r[0] else 'not'} read it"); continue
        if ru is not None and ("ok" in q_) != ru[0]:
            no(f"the parse step {'accepts' if 'ok' in q_ else 'rejects'} a text that can{'' if ru[0] else 'not'} be read"); continue
        if ru is not None and ru[0] and flat(body_of(q_["ok"])) != flat(ru[1]):
            no("the parse step gives another message", expected=ru[1])
    return out, len(cases)


# ------------------------------------------------------------------ C11
def hunt_panic(deep=False):
    b, D, out = binary(), Data(), []
    X, good = texts(b, D, deep)
    types = [r["short"] for r in ROWS]
    V = json_values(D, deep)
    cases = [{"op": "xml", "x": x} for x in X]
    short = [x for x in X if len(x) < 400]
    cases += [{"op": "rows", "x": x, "types": [D.rng.choice(types), "xxx", ""]} for x in short]
    cases += [{"op": "jtext", "t": x} for x in short[:2000]]
    cases += [{"op": "json", "v": v} for v in V] + [{"op": "jtext", "t": json.dumps(v)} for v in V]
    J = [json.dumps(m) for _, m in D.messages()[::7]]
    for _ in range(600 if not deep else 6000):
        t = D.rng.choice(J); i, j = sorted((D.rng.randrange(len(t)), D.rng.randrange(len(t))))
        cases.append({"op": "jtext", "t": D.rng.choice([t[:i], t[i:], t[:i] + t[j:], t[:i] + D.rng.choice('{}[]",:é0') + t[i:]])})
    cases += [{"op": "content", "data": d, "field": f, "payload": p} for d, f, p in content_cases(D, deep)]
    cases += [{"op": "msg", "v": m} for _, m in D.messages()]
    cases += list(flow_cases(b, D, deep))
    cases += [{"op": "map", "s": s} for s in near([r["element"] for r in ROWS], D.rng)] + [{"op": "reg", "s": s} for s in near(ALLNAMES, D.rng)]
    for c, a in zip(cases, runs(b, cases)):
        if "panic" in a and not a["panic"].startswith("not run"):
            out.append({"case": c, "answer": a, "why": f"panic in {c['op']}: {a['panic'][:200]} on {str(c.get('x', c.get('t', c.get('s', ''))))[:100]!r}"})
    return out, len(cases)


HUNT = {"C11": hunt_panic, "C12": hunt_detect, "C13": hunt_content, "C14": hunt_handlers, "C15": hunt_verdict}
