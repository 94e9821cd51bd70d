"""Builds and runs the counterexample search of a property against the real code (a mirror of /repo)."""
import fcntl, json, os, shutil, subprocess, time
from . import cfg, mirror

WAL = {"c15", "c16"}


DEADLY = {4, 6, 7, 8, 11}  # signals a program brings on itself


class Native:
    pass


def _env():
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=cfg.TARGET, CARGO_INCREMENTAL="0",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
    return e


def seed_target():
    if not os.path.isdir(cfg.TARGET) and os.path.isdir(cfg.SEED_TARGET):
        tmp = cfg.TARGET + ".tmp%d" % os.getpid()
        os.makedirs(cfg.BUILD, exist_ok=True)
        subprocess.call(["cp", "-a", cfg.SEED_TARGET, tmp])
        try:
            os.rename(tmp, cfg.TARGET)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)


def build(case, timeout=600):
    """-> (path of the search program or None, what went wrong)"""
    os.makedirs(os.path.join(cfg.BUILD, "bin"), exist_ok=True)
    with open(os.path.join(cfg.BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        seed_target()
        mirror.mirror(case, case in WAL)
        cmd = ["cargo", "build", "--offline", "--bin", "vxh", "--message-format", "short"]
        try:
            p = subprocess.run(cmd, cwd=cfg.MONO, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, "cargo build timed out"
        if p.returncode != 0:
            errs = [l for l in p.stdout.split("\n") if "error" in l]
            return None, "\n".join(errs[:20]) or p.stdout[-2000:]
        exe = os.path.join(cfg.BUILD, "bin", "%s.%d" % (case, os.getpid()))
        shutil.copy2(os.path.join(cfg.TARGET, "debug", "vxh"), exe)
        return exe, None


def search(exe, seed, secs, maxcases, out, timeout=None):
    """a search may take several processes, one after the other: `next` in a report is where the next one starts"""
    t0, total, nontrivial, start, first = time.time(), 0, 0, 0, None
    while True:
        r = _search(exe, seed, max(secs - (time.time() - t0), 0.1), maxcases, out, timeout, start)
        total += r.info.get("evaluations", 0)
        nontrivial += r.info.get("distinct_nontrivial", 0)
        if r.status == "error":
            break
        r.info["evaluations"], r.info["distinct_nontrivial"] = total, nontrivial
        first = first or r.info.get("samples")
        if first and "samples" in r.info:
            r.info["samples"] = first
        start = r.info.pop("next", None)
        if r.status != "held" or start is None or time.time() - t0 >= secs:
            break
    r.wall = time.time() - t0
    return r


def _search(exe, seed, secs, maxcases, out, timeout, start):
    t0 = time.time()
    tmp = os.path.join(cfg.BUILD, "tmp.%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    e = dict(os.environ)
    e["TMPDIR"] = tmp
    e.pop("RUST_LOG", None)
    r = Native()
    r.status, r.info, r.tail = "error", {}, ""
    try:
        p = subprocess.run([exe, "search", str(seed), str(secs), str(maxcases), out, str(start)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout or secs + 150, env=e, cwd=tmp, errors="replace", text=True)
        r.tail = p.stdout[-2000:]
        for line in p.stdout.split("\n"):
            if line.startswith("VXH "):
                k, v = line[4:].split(" ", 1)
                r.status, r.info = k, json.loads(v)
        if r.status == "error":
            r.tail = "rc=%d %s" % (p.returncode, r.tail)
            if -p.returncode in DEADLY:
                _deadly(exe, seed, out, e, tmp, r)
    except subprocess.TimeoutExpired:
        r.tail = "search timed out"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        if os.path.exists(out + ".running"):
            os.remove(out + ".running")
    r.wall = time.time() - t0
    return r


def _deadly(exe, seed, out, e, tmp, r):
    """the process was taken down (not by us): by which of the cases it was running?"""
    try:
        raw = open(out + ".running", "rb").read()
    except OSError:
        return
    for i in sorted({int.from_bytes(raw[k:k + 8], "little") for k in range(0, len(raw) - 7, 8)} - {0}):
        try:
            p = subprocess.run([exe, "one", str(seed), str(i - 1), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=e, cwd=tmp, errors="replace", text=True)
        except subprocess.TimeoutExpired:
            continue
        if -p.returncode in DEADLY or p.returncode == 1:
            for line in p.stdout.split("\n"):
                if line.startswith("VXH broken "):
                    r.status, r.info = "broken", json.loads(line[11:])
            if r.status == "broken":
                return
    if os.path.exists(out):
        os.remove(out)


def replay(exe, path):
    tmp = os.path.join(cfg.BUILD, "tmp.%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    e = dict(os.environ)
    e["TMPDIR"] = tmp
    try:
        p = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150, env=e, cwd=tmp, text=True, errors="replace")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return p.returncode, p.stdout[-2000:]
