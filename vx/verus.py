"""Runs Verus on a rendered unit and classifies what it says."""
import json, os, re, subprocess, time
from . import cfg

# messages of failed proof obligations; everything else is a tool problem (construct not supported, name lost, ...)
FAIL = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|assertion not satisfied|"
                  r"invariant not satisfied|ensures not satisfied|requires not satisfied|decreases not satisfied|"
                  r"possible arithmetic|possible division|possible bit ?shift|possible shift|possible overflow|"
                  r"unable to prove post-condition|[Cc]annot show invariant holds|precondition not met|may fail to meet its declared type invariant|"
                  r"bitvector assertion|could not prove|failed this (pre|post)condition")
RLIMIT = re.compile(r"[Rr]esource limit|rlimit|timed out|timeout|solver (gave|returned) unknown")


class Result:
    pass


def run(unit_name, text, marks, threads=None, rlimit=None, timeout=600, extra=(), multiple=1):
    d = os.path.join(cfg.BUILD, "verus")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, unit_name + ".rs")
    open(f, "w").write(text)
    cmd = ["verus", f, "--output-json", "--error-format=json", "--num-threads", str(threads or 8),
           "--multiple-errors", str(multiple), "--time"]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    cmd += list(extra)
    t0 = time.time()
    r = Result()
    r.cmd = "verus %s --rlimit %s" % (os.path.basename(f), rlimit or "default")
    r.file = f
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        r.status, r.verified, r.errors, r.failures, r.tool = "timeout", 0, 0, [], ["verus timed out after %ds" % timeout]
        r.wall, r.smt = time.time() - t0, 0
        r.rlfns, r.rlfree, r.rl = set(), False, []
        return r
    r.wall = time.time() - t0
    r.stdout, r.stderr = p.stdout, p.stderr
    try:
        j = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError:
        j = {}
    vr = j.get("verification-results", {})
    r.verified, r.errors = vr.get("verified", 0), vr.get("errors", 0)
    tm = j.get("times-ms", {})
    r.smt = (tm.get("smt", {}) or {}).get("smt-run", 0) / 1000.0 if isinstance(tm.get("smt"), dict) else 0
    r.failures, r.tool, r.rl, r.rlfns, r.rlfree = [], [], [], set(), False
    for line in p.stderr.split("\n"):
        if not line.startswith("{"):
            if line.strip():
                r.tool.append(line)
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") != "error":
            if "Resource limit" in m.get("message", "") or "rlimit" in m.get("message", ""):
                r.rl.append(m["message"])
            continue
        msg = m["message"]
        if msg.startswith("aborting due to"):
            continue
        lines = [(s["line_start"], s.get("label") or "", (s["text"][0]["text"].strip() if s.get("text") else ""), s.get("is_primary")) for s in m.get("spans", [])]
        fns, own = [], []
        for (ln, lab, tx, prim) in lines:
            for (a, b, label, file, l0) in marks:
                if a <= ln <= b:
                    fns.append((label, file, l0))
                    if lab != "failed precondition":
                        own.append(label)
        # own: the functions whose obligation it is, not those called with a precondition that does not hold
        e = {"msg": msg, "own": own or [x[0] for x in fns], "where": [(l, lab, tx) for (l, lab, tx, pr) in lines], "fns": fns, "rendered": m.get("rendered", "")}
        if m.get("code"):
            r.tool.append("%s (%s)" % (msg, m["code"].get("code")) + " | " + "; ".join(x[2] for x in lines)[:300])
        elif RLIMIT.search(msg):
            r.rlfns.update(x[0] for x in fns)
            r.rlfree = r.rlfree or not fns
            r.rl.append(msg + " | " + "; ".join(x[2] for x in lines)[:200])
        elif FAIL.search(msg):
            r.failures.append(e)
        else:
            r.tool.append(msg + " | " + "; ".join(x[2] for x in lines)[:300])
    if r.tool and not vr.get("success"):
        r.status = "tool"
    elif r.rl:
        r.status = "rlimit"
    elif r.failures or r.errors:
        r.status = "fail"
    elif vr.get("success") and r.verified > 0:
        r.status = "ok"
    else:
        r.status = "tool"
        r.tool.append("no result: rc=%d %s" % (p.returncode, p.stderr[-500:]))
    return r
