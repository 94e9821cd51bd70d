"""Copies /repo's working tree to /verif/build/mono so that it can be built offline.

/repo depends on the git crate `tikv-client`, which cannot be fetched here. The copy differs from
/repo in exactly this:
  * Cargo.toml: the tikv-client line points at /verif/harness/tikv-client (an in-process map with
    the same names), [patch.crates-io] and the bench target are dropped;
  * Cargo.lock: the entries only the git crate needs are pruned by cargo itself;
  * src/bin, benches/ and tests/ are left out;
  * for a counterexample search, src/lib.rs (for the log: src/wal/mod.rs too) gets a line declaring the
    search module, which therefore sees private items, and src/bin/vxh.rs calls it.
"""
import os, re, shutil
from . import cfg

SKIP_TOP = {".git", "target", "benches", "tests", "doc", "docker", ".github"}


def _write(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def manifest(t):
    t = re.sub(r"^tikv-client\s*=.*$",
               'tikv-client = { path = "%s/harness/tikv-client" }' % cfg.VERIF, t, flags=re.M)
    t = re.sub(r"^\[patch\.crates-io\]\n(?:(?!\[).*\n?)*", "", t, flags=re.M)
    t = re.sub(r"^\[\[bench\]\]\n(?:(?!\[).*\n?)*", "", t, flags=re.M)
    t += "\n[workspace]\n" if "[workspace]" not in t else ""
    return t


def lock(t):
    out = []
    for block in re.split(r"(?m)^(?=\[\[package\]\])", t):
        if re.search(r'(?m)^name = "tikv-client"', block):
            block = re.sub(r"(?m)^source = .*\n", "", block)
            block = re.sub(r'(?m)^version = .*', 'version = "0.0.0"', block)
            block = re.sub(r"(?ms)^dependencies = \[.*?^\]\n", "", block)
        out.append(block)
    t = "".join(out)
    return t


def _case(case):
    return open(os.path.join(cfg.VERIF, "harness/cases", case + ".rs")).read()


def mirror(case=None, wal=False, dst=None, src=None):
    dst = dst or cfg.MONO
    src = src or cfg.REPO
    kept = set()
    for top, dirs, files in os.walk(src):
        if top == src:
            dirs[:] = [d for d in dirs if d not in SKIP_TOP]
        for f in files:
            p = os.path.join(top, f)
            rel = os.path.relpath(p, src)
            if not os.path.isfile(p) or rel.startswith("src/bin/"):
                continue
            data = open(p, "rb").read()
            if rel == "Cargo.toml":
                data = manifest(data.decode()).encode()
            elif rel == "Cargo.lock":
                data = lock(data.decode()).encode()
            elif case and rel == "src/lib.rs":
                data += ('\n#[path = "%s/harness/common.rs"] pub mod vx_common;\n#[path = "%s/harness/kit.rs"] pub mod vx_kit;\n' % (cfg.VERIF, cfg.VERIF)).encode()
                if wal:
                    data += b"pub use wal::vx_case;\n"
                else:
                    data += ('#[path = "%s/harness/cases/%s.rs"] pub mod vx_case;\n' % (cfg.VERIF, case)).encode()
            elif case and wal and rel == "src/wal/mod.rs":
                data += ('\n#[path = "%s/harness/cases/%s.rs"] pub mod vx_case;\n' % (cfg.VERIF, case)).encode()
            elif case and rel == "src/db.rs" and "db::vx_db" in _case(case):
                data += ('\n#[path = "%s/harness/vx_db.rs"] pub mod vx_db;\n' % cfg.VERIF).encode()
            kept.add(rel)
            if rel == "Cargo.lock":
                if os.path.exists(os.path.join(dst, rel)):
                    seen = os.path.join(dst, "Cargo.lock.seen")
                    if os.path.exists(seen) and open(seen, "rb").read() == data:
                        kept.add("Cargo.lock.seen")
                        continue
                _write(os.path.join(dst, "Cargo.lock.seen"), data)
                kept.add("Cargo.lock.seen")
            _write(os.path.join(dst, rel), data)
    if case:
        _write(os.path.join(dst, "src/bin/vxh.rs"), b"fn main() { monolith::vx_case::main() }\n")
        kept.add("src/bin/vxh.rs")
    for top, dirs, files in os.walk(dst):
        for f in files:
            rel = os.path.relpath(os.path.join(top, f), dst)
            if rel not in kept:
                os.remove(os.path.join(top, f))
    return dst
