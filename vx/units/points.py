"""Equality of time points over floats: Kani function contract (C17)."""
import re
from .. import kani, rust, unit
TP = "src/common/time_point.rs"

HEAD = """#![allow(dead_code)]
"""
REQ = "#[cfg_attr(kani, kani::requires(self.value.is_finite() && other.value.is_finite()))]\n"
ENS = "#[cfg_attr(kani, kani::ensures(|r: &bool| *r == (self.timestamp == other.timestamp && (self.value - other.value).abs() < 0.000000001)))]\n"
HARNESS = """
#[cfg(kani)]
#[kani::proof_for_contract(TimePoint::eq)]
#[kani::solver(kissat)]
fn vx_time_point_eq() {
    let a = TimePoint { timestamp: kani::any(), value: kani::any() };
    let b = TimePoint { timestamp: kani::any(), value: kani::any() };
    let r = a.eq(&b);
    kani::cover!(r, "equal points exist");
    kani::cover!(!r, "different points exist");
}
fn main() {}
"""


def text():
    s = unit.source(TP)
    out = HEAD
    for k, n in (("type", "Timestamp"), ("type", "Value")):
        out += rust.strip_attrs(unit.source("src/lib.rs").find_item(k, n)) + "\n"
    for x in s.items:
        if x[0] == "const":
            out += rust.strip_attrs(s.text[x[2]:x[3]]) + "\n"
    out += rust.strip_attrs(s.find_item("struct", "TimePoint")) + "\n"
    f = s.find_fn("eq", "^impl PartialEq for TimePoint$")
    out += "impl TimePoint {\n" + REQ + ENS + f.sig + f.body + "\n}\n" + HARNESS
    return out, f


def prove(p, rx, threads):
    t, f = text()
    p.backend = "Kani (CBMC, kissat)"
    label = "PartialEq for TimePoint::eq"
    p.contracts = ["%s (%s:%d)" % (label, f.file, f.line)]
    p.trusted = ["Kani/CBMC model of 64-bit floats (no non-determinism assumed beyond the inputs)"]
    r = kani.run("points", t)
    p.cmd, p.smt, p.wall, p.file = r["cmd"], r["wall"], r["wall"], r["file"]
    p.obligations = r["checks"]
    p.verified = r["checks"] - len(r["failures"])
    if r["status"] == "ok":
        if r["covers"][0] != 2:
            p.status, p.why = "vacuous", ["covers %s" % (r["covers"],)]
        else:
            p.status, p.probes = "ok", "2 of 2 cover points reached"
    elif r["status"] == "fail":
        p.status = "failed"
        p.failures = [{"msg": d, "fns": [(label, f.file, f.line)], "where": [(0, "", loc)], "rendered": r["out"][-3000:]} for d, loc in r["failures"]]
    else:
        p.status, p.why = "unsupported", [r["status"] + " " + r["out"][-500:]]
    return p
