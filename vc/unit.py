"""Small groups of functions under contract (C07-C15): weaving, inference of missing invariants and helper contracts, verdicts."""
from .core import *
from .validation import settle, locate, unreached
from .report import findings

CL = re.compile(r"/\*vxc:(\d+)\*/")


def clause_block(kind, cls, ids=None, base=0):
    return f"\n        {kind}\n" + "".join(f"            {'/*vxc:%d*/ ' % (base + i) if ids else ''}{c},\n" for i, c in enumerate(cls)) if cls else ""


class Unit:
    """srcs: list of Src (modules). con: {module: {fn path: {"req": [...], "ens": [...], "pro": "..."}}}
    inv(src, f, loop) -> list of candidate invariants (or None when the loop shape is not known)
    cand(src, f) -> candidate postconditions for a function without a contract
    head: modules in front (stubs, specifications); frame(src, ext, ins) may add further placeholders"""
    def __init__(self, name, srcs, con, head="", tail="", inv=None, cand=None, extra=None, uses="use vstd::prelude::*;", mods=(), pro="", ext_ok=(), skip=()):
        self.name, self.srcs, self.con, self.head, self.tail = name, srcs, con, head, tail
        self.inv, self.cand, self.extra, self.uses, self.mods, self.pro = inv or (lambda *a: None), cand or (lambda *a: []), extra or {}, uses, list(mods), pro
        self.dropped = set()      # candidate ids the verifier refuted
        self.weak = set()         # (module, fn): a loop without a sufficient invariant
        self.bare = set()         # functions without any contract
        self.inferred = {}
        self.rounds = 0
        self.external = set(ext_ok)   # (module, path): bodies outside this check; callers see their contracts
        self.skip = set(skip)         # modules another check verifies

    def text(self, ext):
        n = 0
        self.clauses = {}
        self.weak, self.bare = set(), set()
        out = HEAD + self.head
        up = []     # enclosing modules
        for s in self.srcs:
            ins = dict(self.extra.get(s.name, {}))
            con = self.con.get(s.name, {})
            for f in s.fns:
                i = str(f["id"])
                k = (s.name, f["id"])
                c = con.get(f["path"])
                t = ""
                cands = []
                if c is None and f["body"]:
                    for x in self.cand(s, f):
                        if (k, x) not in self.dropped:
                            cands.append(x)
                    if not cands:
                        self.bare.add((s.name, f["path"]))
                    self.inferred[k] = cands
                if c and c.get("req"):
                    t += clause_block("requires", c["req"])
                if c and c.get("ens"):
                    t += clause_block("ensures", c["ens"])
                elif cands:
                    t += clause_block("ensures", cands, True, n)
                    for x in cands:
                        self.clauses[n] = (k, x); n += 1
                ins[("S", i)] = t + ins.get(("S", i), "")
                if f["body"] and (s.name in self.skip or f["id"] in ext.get(s.name, ()) or (s.name, f["path"]) in self.external):
                    ins[("A", i)] = "#[verifier::external_body] " + ins.get(("A", i), "")
                    continue
                ins[("P", i)] = self.pro + ((c or {}).get("pro", "")) + ins.get(("P", i), "")
                if c and c.get("end"):
                    ins[("E", i)] = c["end"]
                for l in f["loops"]:
                    li = str(l["id"])
                    if l.get("kind") in ("while", "loop"):
                        self.weak.add(k)
                        ins[("L", li)] = " decreases 0int " if False else ""
                        continue
                    r = self.inv(s, f, l)
                    if r is None:
                        self.weak.add(k)
                        continue
                    keep = [x for x in r["inv"] if (k, li, x) not in self.dropped]
                    if r["inv"] and not keep:
                        self.weak.add(k)
                    brk = l.get("kind") in ("find", "any", "all")
                    t = clause_block("invariant_except_break" if brk else "invariant", keep, True, n)
                    for x in keep:
                        self.clauses[n] = ((k, li), x); n += 1
                    e = [x for x in r.get("ens", []) if (k, li, x) not in self.dropped]
                    if brk and e:
                        t += clause_block("ensures", e, True, n)
                        for x in e:
                            self.clauses[n] = ((k, li), x); n += 1
                    ins[("L", li)] = t
                    if r.get("body"):
                        ins[("B", li)] = r["body"]
            body = weave(s.text, ins)
            parts = s.name.split("::")
            if parts[:-1] != up:
                out += "}" * len(up) + "\n" + "".join(f"pub mod {p} {{ " for p in parts[:-1]) + "\n"
                up = parts[:-1]
            out += f"/*vxmod:{s.name}*/\npub mod {parts[-1]} {{ \n{self.uses[s.name] if isinstance(self.uses, dict) and s.name in self.uses else self.uses[''] if isinstance(self.uses, dict) else self.uses}\n{body}\n/*vxspec:*/\n}}\n"
        out += "}" * len(up) + "\n"
        return out + self.tail + CANARY + TAIL

    def loose(self):
        return {p for _, p in self.bare}


CANARY = "\n/*vxmod:vx_canary*/ pub mod vx_canary { use vstd::prelude::*; /*vxspec:canary*/ pub proof fn vx_canary() ensures false { } }\n"


def decide(u, prop, deadline, rlimit=120, threads=4, only=None):
    """verify with candidate clauses, dropping refuted ones until nothing changes"""
    work = os.path.join(BUILD, "work", prop)
    os.makedirs(work, exist_ok=True)
    srcs = {s.name: s for s in u.srcs}
    stats = []
    for rnd in range(6):
        path = os.path.join(work, f"{u.name}.rs")
        o = settle(path, lambda ext: (u.text(ext), u.loose()), [s.name for s in u.srcs if s.name not in u.skip] + ["vx_canary"] + u.mods, srcs, rlimit=rlimit, threads=threads, deadline=deadline)
        stats += o.stats
        u.rounds += 1
        lines = read(path).split("\n")
        gone = 0
        if o.stats:
            for e in o.stats[-1].errors:
                if e["kind"] not in ("fail", "rlimit"):
                    continue
                for l in e["locs"]:
                    if l[2] - 1 < len(lines):
                        m = CL.search(lines[l[2] - 1])
                        if m:
                            k, x = u.clauses[int(m.group(1))]
                            d = (k[0], k[1], x) if isinstance(k[0], tuple) else (k, x)
                            if d not in u.dropped:
                                u.dropped.add(d); gone += 1
        if not gone:
            break
    o.stats = stats
    for k in list(o.failed):
        if k in u.weak:
            o.undecided[k] = "loop without a derivable invariant: " + o.failed.pop(k)[0].split("\n")[0]
        elif (k[0], srcs[k[0]].byid[k[1]]["path"]) in u.bare:
            # its callers may rule the case out: no definite violation
            o.undecided[k] = "a function without a contract: " + o.failed.pop(k)[0].split("\n")[0]
    for s in [x for x in u.srcs if x.name not in u.skip]:
        unreached(o, s, [f["id"] for f in s.fns if f["body"] and u.con.get(s.name, {}).get(f["path"]) and (s.name, f["path"]) not in u.external])
    if not o.dead and not o.canary:
        o.dead = "the must-fail canary did not fail"
    return o


def verify(make, prop, deadline):
    """[(unit, outcome)] of make(); where inlining made text the verifier cannot take, without inlining"""
    us = make()
    rs = list(zip(us, pool([lambda u=u: decide(u, prop, deadline) for u in us])))
    odd = lambda u, o: len([1 for w in o.undecided.values() if w.startswith("outside")]) + 100 * bool(o.dead)
    into = [any(s.inlined.get("into") for s in u.srcs) for u in us]
    if any(i and odd(u, o) for i, (u, o) in zip(into, rs)):
        with no_inlining():
            us2 = make()
        for n, i in enumerate(into):
            if i and odd(*rs[n]):
                o2 = decide(us2[n], prop, deadline)
                if odd(us2[n], o2) < odd(*rs[n]):
                    rs[n] = (us2[n], o2)
    return rs


def at_path(v, p):
    for k in p.split("/"):
        v = v[int(k)] if isinstance(v, list) else v.get(k) if isinstance(v, dict) else None
    return v


def confirm(rep):
    """the listed findings of this property that still show on the real code"""
    fs = findings(rep.prop)
    if not fs:
        return
    try:
        from . import msgs, harness
        ans = harness.run(msgs.binary(), [f["case"] for f in fs])
    except Exception as e:
        rep.notes.append("known findings not confirmed: " + str(e)[-300:])
        return
    for f, a in zip(fs, ans):
        try:
            shows = all(at_path(a, p) == v for p, v in f["shows"].items())
        except Exception:
            shows = False
        if shows:
            rep.known.append(f["text"])
        else:
            rep.notes.append("a listed finding no longer shows: " + f["text"])


def conclude(rep, units, hunt, tier):
    """units: [(Unit, Outcome)]; hunt(deep) -> ([{"case","why",...}], number of inputs run)"""
    failed, undecided, dead = {}, {}, []
    under = nover = nerr = smt = 0
    inferred, inlined = [], []
    for u, o in units:
        srcs = {s.name: s for s in u.srcs}
        if o.stats:
            last = o.stats[-1]
            nover += last.verified
            fl = {locate(e, list(srcs) + u.mods + ["vx_canary"]) for e in last.errors if e["kind"] in ("fail", "rlimit")}
            nerr += len([x for x in fl if x and x[1] != ("spec", "canary")])
            rep.cov["checker_cmd"] = last.cmd
        smt += sum(r.smt_ms for r in o.stats)
        n = lambda k: f"{k[0]}: {srcs[k[0]].byid[k[1]]['path']}"
        for k, v in o.failed.items():
            failed[n(k)] = v
        for k, v in o.undecided.items():
            undecided[n(k)] = v
        if o.dead:
            dead.append(f"{u.name}: {o.dead[:300]}")
        for s in u.srcs:
            if s.error:
                dead.append(f"{s.file}: not parseable: {s.error[:200]}")
            have = {f["path"] for f in s.fns}
            if s.name in u.skip:
                continue
            under += len([p for p in u.con.get(s.name, {}) if p in have and (s.name, p) not in u.external])
            for p, c in u.con.get(s.name, {}).items():
                if p not in have and not c.get("opt"):
                    undecided[f"{s.name}: {p}"] = "function not found"
            for a, b in s.inlined.get("calls", []):
                inlined.append(f"{s.name}: {b} into {a}")
        for k, v in u.inferred.items():
            if v:
                inferred.append(f"{n(k)}: {len(v)} inferred clause(s)")
    rep.cov.update(obligations=nover + nerr, discharged=nover, functions_under_contract=under, solver="Z3 4.16.0 via Verus", solver_ms=smt,
                   undecided=[f"{k}: {w}" for k, w in undecided.items()][:50], failed=list(failed)[:50], inferred_helper_contracts=inferred[:20], inlined_calls=inlined[:30])
    rep.notes += dead
    confirm(rep)
    found = []
    deep = tier == "thorough"
    ran = False
    if failed or undecided or dead or deep:
        try:
            found, cnt = hunt(deep)
            rep.cov["inputs_run"] = cnt
            ran = True
        except Exception as e:
            rep.notes.append("concrete search did not run: " + str(e)[-600:])
    for x in found[:5]:
        rep.violation(x["why"], {**x, "failed_obligations": [w for v in failed.values() for w in v][:4]}, True)
    if not found:
        for k, why in failed.items():
            rep.violation(f"failed obligation: {k}", {"obligation": k, "verifier": why}, False)
    if undecided or dead:
        rep.notes.append(f"bounded stand-in for {len(undecided)} undecided function(s): {rep.cov.get('inputs_run', 0)} inputs (bounded, not counted as proved)" if ran else "no bounded stand-in ran")
    return rep.finish()
