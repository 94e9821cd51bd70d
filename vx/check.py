"""Decides one property on /repo's current tree: proof first, counterexample search beside it."""
import importlib, json, os, re, sys, threading, time, traceback
from . import cfg, unit, verus, native
from .props import PROPS
from .rust import Lost

T0 = time.time()
# seconds after which no further attempt at a proof is begun
QUICK = dict(secs=15, more=150)
LAST_TRY = {"quick": 400, "thorough": 1500}
TIER = "quick"
FOUND, TROUBLE = threading.Event(), threading.Event()  # the search has found an input; a first attempt did not go through
THOROUGH = dict(secs=120, more=240)


class Proof:
    def __init__(self, name):
        self.name, self.status, self.why = name, "none", []
        self.obligations = self.verified = 0
        self.failures, self.contracts, self.trusted, self.subs = [], [], [], []
        self.alts, self.retried, self.all_failures, self.rlfns, self.rlfree, self.box = 0, "", [], [], False, {}
        self.cmd, self.smt, self.wall, self.probes, self.file = "", 0.0, 0.0, "", ""
        self.weak, self.done = {}, set()
        self.backend = "Verus (Z3)"


def relevant(f, rx):
    """does the failed obligation belong to a function the property rests on"""
    if rx is None or not f["fns"]:
        return True
    return any(re.search(rx, x[0]) for x in f["fns"])


def prove(name, rx, threads):
    """the proof, but for what a closure without a contract leaves open (that is open, not refuted)"""
    p = attempts(name, rx, threads)
    if p.status == "failed" and p.weak:
        weak = [f for f in p.failures if f["own"] and all(x in p.weak or x in p.done for x in f["own"])]
        if len(weak) == len(p.failures):
            p.status, p.failures, p.why = "unsupported", [], sorted(set(p.weak.values()))
        else:
            p.failures = [f for f in p.failures if f not in weak]
    return p


def attempts(name, rx, threads):
    """the proof with the first annotations; where it does not go through on this tree, again with facts from before a loop kept
    inside it and with the alternative annotations of the functions that have some. The contracts are the same in every attempt,
    and Verus checks each function against contracts alone, so an obligation counts as discharged if one attempt discharges it."""
    unit.ALT = 0
    p = attempt(name, rx, threads)
    m = sys.modules.get("vx.units." + name)
    if p.status not in ("failed", "unknown", "lost", "unsupported") or m is None or hasattr(m, "prove"):
        return p
    first = p
    TROUBLE.set()
    need = undone(p)
    tries = [(a, iso) for a in range(max(p.alts, getattr(m, "ALTS", 0)) + 1) for iso in (True, False) if (a, iso) != (0, True)]
    base = p if p.status in ("failed", "unknown") else None
    done = 0
    status = {0: p.status}
    for a, iso in tries:
        if not iso and status.get(a) not in ("failed", "unknown"):
            continue  # the text was not accepted at all
        if FOUND.is_set() or time.time() - T0 > LAST_TRY.get(TIER, 400):
            break  # an input settles it; or no time for another attempt
        unit.ALT = a
        try:
            q = attempt(name, rx, threads, iso)
        finally:
            unit.ALT = 0
        done += 1
        if iso:
            status[a] = q.status
        if q.status == "ok":
            q.retried = "attempt %d" % (done + 1)
            return q
        if q.status not in ("failed", "unknown"):
            continue
        left = undone(q)
        if q.verified == 0 or not q.box.get("hit"):
            continue  # not every function was looked at
        if base is None or need is None:
            base, need = q, left
        elif left is not None:
            need = need & left
        if need is not None and not need and not (base.box.get("err") or base.box.get("n", 0) == 0 or base.box["missing"]):
            p = base
            p.status, p.failures, p.why = "ok", [], []
            p.verified, p.retried = p.obligations, "%d attempts" % (done + 1)
            p.probes = "%d of %d reachability probes refuted, %d undecided" % (p.box["hit"], p.box["n"], p.box["undecided"])
            return p
    if base is not None and need:
        base.done = undone(base) - need if undone(base) else set()
        left = [f for f in base.failures if not f["own"] or any(x not in base.done for x in f["own"])]
        base.failures = left or base.failures
    return base or first


def undone(p):
    """the functions an attempt left open; None: something outside functions"""
    if p.status not in ("failed", "unknown"):
        return None
    if p.rlfree:
        return None
    out = set(p.rlfns)
    for f in p.all_failures:
        if not f["own"]:
            return None
        out |= set(f["own"])
    return out if out else None


def attempt(name, rx, threads, isolation=True):
    p = Proof(name)
    try:
        m = importlib.import_module("vx.units." + name)
        if hasattr(m, "prove"):
            return m.prove(p, rx, threads)
        U = m.build()
        text, marks, _ = U.render(False, isolation)
        p.alts = U.alts
    except Lost as e:
        p.status, p.why = "lost", ["anchor lost: %s" % e]
        return p
    except Exception as e:  # the source could not be cut up
        p.status, p.why = "lost", ["extraction failed: %r" % e]
        return p
    p.contracts = ["%s (%s:%d)" % c for c in U.contracts if rx is None or re.search(rx, c[0])]
    p.trusted, p.subs = U.trusted_base(), sorted(set(U.subs_used))
    rl = getattr(m, "RLIMIT", 25)
    box = {}

    def twin():
        try:
            t2, marks2, n = U.render(True, isolation)
            r2 = verus.run(name + "_probes", t2, marks2, rlimit=rl, threads=max(2, threads // 2), multiple=20, timeout=500)
            hit = set()
            for f in r2.failures:
                if "assertion" in f["msg"]:
                    for (ln, lab, tx) in f["where"]:
                        if "vx_probe()" in tx:
                            hit.add(ln)
            lines = [i + 1 for i, l in enumerate(t2.splitlines()) if "vx_probe() {" in l and "proof { assert(false)" in l]
            # two probes can share a line; count lines
            box["n"], box["hit"], box["status"] = len(set(lines)), len(hit & set(lines)), r2.status
            miss = sorted(set(lines) - hit)
            # a probe in a function whose query ran out of resources is undecided, not accepted
            und = [l for l in miss if any(a <= l <= b and lab in r2.rlfns for (a, b, lab, f_, l_) in marks2)]
            box["missing"], box["undecided"] = [l for l in miss if l not in und][:10], len(und)
        except Exception as e:
            box["err"] = repr(e)
    th = threading.Thread(target=twin)
    th.start()
    r = verus.run(name, text, marks, rlimit=rl, threads=threads, timeout=max(60, min(600, LAST_TRY.get(TIER, 400) + 200 - (time.time() - T0))))
    th.join()
    p.cmd, p.smt, p.wall, p.file = r.cmd, r.smt, r.wall, r.file
    p.verified, p.obligations = r.verified, r.verified + r.errors
    if r.status in ("tool", "timeout"):
        p.status, p.why = "unsupported", r.tool[:8]
        return p
    fails = [f for f in r.failures if relevant(f, rx)]
    p.box, p.rlfree, p.weak = box, r.rlfree, U.weak
    p.all_failures, p.rlfns = fails, [x for x in r.rlfns if rx is None or re.search(rx, x)]
    if fails:
        p.status, p.failures = "failed", fails
        return p
    if r.status == "rlimit":
        p.status, p.why = "unknown", r.rl[:5]
        return p
    if box.get("err") or box.get("n", 0) == 0 or box["missing"]:
        p.status, p.why = "vacuous", ["reachability probes: %s" % box]
        return p
    p.probes = "%d of %d reachability probes refuted, %d undecided" % (box["hit"], box["n"], box["undecided"])
    p.status = "ok"
    return p


def known():
    out = []
    f = os.path.join(cfg.VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"open: property=(\w+) match=/(.*?)/ (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def main(prop, tier):
    global TIER
    TIER = tier
    t0 = time.time()
    P = PROPS[prop]
    opt = dict(THOROUGH if tier == "thorough" else QUICK)
    opt.update(P.get(tier, {}))
    os.makedirs(cfg.BUILD, exist_ok=True)
    os.makedirs(os.path.join(cfg.VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(cfg.VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    rep = os.path.join(rdir, "%s.json" % prop)
    if os.path.exists(rep):
        os.remove(rep)
    seed = cfg.SEED

    # proofs and search side by side
    proofs = []

    def do_proofs():
        for (u, rx) in P["units"]:
            try:
                proofs.append(prove(u, rx, 8))
            except Exception as e:
                p = Proof(u)
                p.status, p.why = "unsupported", ["%r" % e, traceback.format_exc()[-800:]]
                proofs.append(p)
    th = threading.Thread(target=do_proofs)
    th.start()
    exe, err, res = None, "no search for this property", None
    if P.get("case"):
        exe, err = native.build(P["case"])
        if exe:
            res = native.search(exe, seed, opt["secs"], 10**9, rep)
            print("search: %s, %s evaluations, %.1f s" % (res.status, res.info.get("evaluations"), res.wall), flush=True)
            if res.status == "error":
                print("search: " + res.tail, flush=True)
        else:
            print("search program does not build: %s" % err, flush=True)
    # while the proof is attempted again, the search goes on
    longer = 0

    def go_on(res, k):
        nonlocal longer
        r2 = native.search(exe, seed + 1000, k, 10**9, rep)
        longer += r2.wall
        if r2.status == "error":
            print("longer search: " + r2.tail, flush=True)
            return res
        r2.wall += res.wall
        for k2 in ("evaluations", "distinct_nontrivial"):
            r2.info[k2] = r2.info.get(k2, 0) + res.info.get(k2, 0)
        return r2
    while th.is_alive():
        if res is not None and res.status == "broken":
            FOUND.set()
            th.join()
        elif exe and res.status == "held" and TROUBLE.is_set() and not longer:
            res = go_on(res, opt["more"])
        else:
            th.join(0.5)
    th.join()
    for p in proofs:
        print("proof %s: %s, %d of %d obligations (functions and lemmas) discharged, %.1f s %s%s" % (p.name, p.status, p.verified, p.obligations, p.wall, p.probes, (", after " + p.retried) if p.retried else ""), flush=True)
        for w in p.why:
            print("  " + w[:600], flush=True)
        for f in p.failures[:6]:
            print("  failed obligation: %s in %s: %s" % (f["msg"], ", ".join(sorted(set("%s (%s:%d)" % x for x in f["fns"]))) or "lemma", "; ".join(x[2] for x in f["where"])[:300]), flush=True)
    failed = [p for p in proofs if p.status == "failed"]
    ok = bool(proofs) and all(p.status == "ok" for p in proofs)
    if (failed or not ok) and exe and res.status != "broken":
        if not longer:
            res = go_on(res, opt["more"] if failed else max(opt["secs"] * 3, 60))
    if longer:
        print("longer search: %s, %s evaluations, %.1f s" % (res.status, res.info.get("evaluations"), longer), flush=True)
    code, violations, line = 0, 0, None
    if res is not None and res.status == "broken":
        what = res.info.get("what", "")
        hit = [k for k in known() if k[0] == prop and re.search(k[1], what)]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]))
        else:
            v = json.load(open(rep))
            v["property"] = prop
            v["replay"] = "in /verif: ./check %s --replay %s" % (prop, os.path.relpath(rep, cfg.VERIF))
            v["failed_obligations"] = [{"message": f["msg"], "functions": f["fns"], "where": f["where"]} for p in failed for f in p.failures[:6]]
            json.dump(v, open(rep, "w"), indent=1)
            print("broken: %s" % what[:1500].encode("unicode_escape").decode())
            line, code, violations = "VIOLATION property=%s replay=%s" % (prop, rep), 1, 1
    elif failed:
        json.dump({"property": prop, "kind": "failed obligations, no failing input found", "searched": (res.info if res else None),
                   "obligations": [{"unit": p.name, "message": f["msg"], "functions": f["fns"], "where": f["where"], "verifier_output": f["rendered"]} for p in failed for f in p.failures]},
                  open(rep, "w"), indent=1)
        line, code, violations = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rep), 1, 1
    ev = {"property": prop, "tier": tier, "seed": seed, "wall_s": round(time.time() - t0, 2), "violations": violations}
    cov = {}
    if proofs:
        cov.update(obligations=sum(p.obligations for p in proofs), discharged=sum(p.verified for p in proofs),
                   checker_cmd="; ".join(p.cmd for p in proofs if p.cmd) or "verus (not run)",
                   trusted_base=sorted(set(t for p in proofs for t in p.trusted)),
                   functions_under_contract=sorted(set(c for p in proofs for c in p.contracts)),
                   extraction_drops=sorted(set(t for p in proofs for t in p.subs)) + P.get("drops", []),
                   back_end=sorted(set(p.backend for p in proofs)), solver_s=round(sum(p.smt for p in proofs), 2),
                   proof_status={p.name: p.status + (": " + "; ".join(p.why)[:500] if p.why else "") for p in proofs},
                   reachability={p.name: p.probes for p in proofs if p.probes})
    if res is not None and res.info:
        s = {k: res.info[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples") if k in res.info}
        if ok or failed:
            cov["counterexample_search"] = s
        else:
            cov.update(s)
    ev["level"] = P.get("level", "proof") if (ok or failed) else "exploration"
    if ev["level"] == "exploration":
        cov.setdefault("evaluations", 0), cov.setdefault("distinct_nontrivial", 0), cov.setdefault("rule", "no search ran"), cov.setdefault("samples", [])
        cov["note"] = "the proof did not apply to this tree; bounded search only (not counted as proved)"
    ev["coverage"] = cov
    ev["assumptions"] = P.get("assumptions", []) + ["bounded stand-in: " + b for b in P.get("bounded", [])]
    json.dump(ev, open(os.path.join(cfg.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if exe:
        os.remove(exe)
    if not ok and not failed and code == 0:
        print("note: the proof did not apply to this tree (%s); bounded search only" % ", ".join("%s %s" % (p.name, p.status) for p in proofs if p.status != "ok"))
    if line:
        print(line)
    elif code == 0:
        print("held: property %s" % prop)
    return code


def replay(prop, path):
    v = json.load(open(path))
    if "case" not in v:
        print("no failing input in this file; the failed obligations:")
        for o in v.get("obligations", []):
            print(o["verifier_output"])
        return main(prop, "quick")
    exe, err = native.build(PROPS[prop]["case"])
    if not exe:
        print(err)
        return 0
    rc, out = native.replay(exe, path)
    print(out)
    os.remove(exe)
    return 1 if rc else 0
