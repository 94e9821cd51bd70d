"""Runs Kani function contracts on extracted functions (loop-free, full-domain symbolic inputs, so a pass is complete)."""
import os, re, subprocess, time
from . import cfg


def run(name, text, timeout=300):
    """-> dict(status ok|fail|tool, checks, failures [(description, location)], covers (hit, all), wall, file, cmd)"""
    d = os.path.join(cfg.BUILD, "kani", name)
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, name + ".rs")
    open(f, "w").write(text)
    cmd = ["kani", f, "-Z", "function-contracts"]
    t0 = time.time()
    r = dict(status="tool", checks=0, failures=[], covers=(0, 0), file=f, cmd="kani %s -Z function-contracts" % os.path.basename(f), out="", harnesses=0)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        r.update(status="timeout", wall=time.time() - t0)
        return r
    r["wall"], r["out"] = time.time() - t0, p.stdout
    cs = re.findall(r"Check \d+: (\S+)\n\s+- Status: (\w+)\n\s+- Description: \"(.*?)\"\n\s+- Location: (.*)", p.stdout)
    cov = [c for c in cs if ".cover." in c[0]]
    rest = [c for c in cs if ".cover." not in c[0]]
    r["checks"] = len(rest)
    r["covers"] = (sum(c[1] == "SATISFIED" for c in cov), len(cov))
    r["failures"] = [(c[2], c[3]) for c in rest if c[1] == "FAILURE" and not c[2].startswith("NaN on ")]
    nan = [c for c in rest if c[1] == "FAILURE" and c[2].startswith("NaN on ")]
    und = [c for c in rest if c[1] not in ("SUCCESS", "FAILURE", "UNREACHABLE")]
    m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures", p.stdout)
    r["harnesses"] = int(m.group(1)) + int(m.group(2)) if m else 0
    if r["failures"]:
        # an unsupported construct fails as a reachable assertion: a tool problem
        if any("not currently supported" in x[0] or "unwinding" in x[0] for x in r["failures"]):
            r["status"] = "tool"
        else:
            r["status"] = "fail"
    elif m and int(m.group(1)) + int(m.group(2)) > 0 and (int(m.group(2)) == 0 or nan) and not und and r["checks"]:
        r["status"] = "ok"
    return r
