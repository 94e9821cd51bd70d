"""A verification unit: Verus text made of (a) specification text from /verif/vx/units and (b) functions and
type definitions cut out of /repo's current source on every run.

What the extraction changes in the text it cuts out (and nothing else):
  * comments, attributes and visibility (`pub`) are dropped; log macros (info!, error!, ...) are dropped;
  * the return type gets a name; requires/ensures/invariants/decreases and `proof { }` blocks are inserted;
  * `for x in e` becomes `for x in it: e` (names the ghost iterator);
  * per function, the listed token substitutions (each with its reason) are applied; they are reported in the
    evidence. A substitution marked "must" that no longer matches loses the anchor.
"""
import re, os
from . import rust, cfg
from .rust import Lost

LOGS = re.compile(r"\b(?:info|error|debug|warn|trace)!\s*\(")
_sources = {}
# which of the alternative annotations of a function is taken (0: the first); contracts never differ between them
ALT = 0


def source(rel):
    key = (cfg.REPO, rel)
    if key not in _sources:
        p = os.path.join(cfg.REPO, rel)
        if not os.path.isfile(p):
            raise Lost("no file %s" % rel)
        _sources[key] = rust.Source(p, rel)
    return _sources[key]


def all_sources():
    for top, _, files in os.walk(os.path.join(cfg.REPO, "src")):
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(top, f), cfg.REPO)
            if f.endswith(".rs") and "/proto/" not in rel and "/bin/" not in rel:
                yield rel


def locate(rel, name, container):
    """the named function; if it moved to another file it is found there"""
    try:
        return source(rel).find_fn(name, container)
    except Lost as first:
        hits = []
        for r in all_sources():
            if r != rel:
                try:
                    hits.append(source(r).find_fn(name, container))
                except Lost:
                    pass
        if len(hits) == 1 and container is not None:
            return hits[0]
        raise first


def drop_logs(body):
    while True:
        m = LOGS.search(body)
        if not m:
            return body
        c = rust.code(rust.lex(body))
        i = next(i for i, t in enumerate(c) if t[2] == m.end() - 1)
        j = rust.match(c, i)
        e = c[j][3]
        if j + 1 < len(c) and c[j + 1][1] == ";":
            e = c[j + 1][3]
            body = body[:m.start()] + body[e:]
        else:
            body = body[:m.start()] + "()" + body[e:]


def name_ret(sig, ret):
    c = rust.code(rust.lex(sig))
    d = 0
    arrow = where = None
    i = 0
    while i < len(c):
        t = c[i][1]
        if t in ("(", "["):
            i = rust.match(c, i)
        elif t == "->" and arrow is None:
            arrow = i
        elif t == "where" and arrow is not None or t == "where":
            where = i
            break
        i += 1
    end = c[where][2] if where is not None else len(sig)
    if arrow is None:
        return sig
    ty = sig[c[arrow][3]:end].strip()
    return sig[:c[arrow][2]] + "-> (%s: %s) " % (ret, ty) + (sig[c[where][2]:] if where is not None else "")


def tail_start(body, ls):
    """where the tail expression of a body starts"""
    c = rust.code(rust.lex(body))
    i, pos, first = 1, c[0][3], True
    ends = set(l[2] for l in ls)
    head = None
    while i < len(c) - 1:
        if first:
            head, first = c[i][1], False
        if c[i][1] in rust.OPEN:
            brace = c[i][1] == "{"
            i = rust.match(c, i)
            nxt = c[i + 1][1]
            stmt = brace and head in ("if", "match", "while", "for", "loop", "unsafe", "{") and nxt not in ("else", ".", "?", ";", ",") and i + 1 < len(c) - 1
            if c[i][2] in ends or stmt:
                pos, first = c[i][3], True
        elif c[i][1] == ";":
            pos, first = c[i][3], True
        i += 1
    return pos


def nested(outer, name):
    """a function item inside the body of another"""
    for a, b, n in rust.nested_fns(outer.body):
        if n == name:
            text = outer.body[a:b]
            c = rust.code(rust.lex(text))
            i = next(i for i, t in enumerate(c) if t[1] == "{" and t[0] == "op")
            return rust.Fn(outer.file, outer.name, name, rust.strip_attrs(text[:c[i][2]]).strip(), text[c[i][2]:], outer.line)
    raise Lost("%s: no inner fn %s" % (outer.name, name))


def drop_nested(body):
    """inner fn items and type aliases are items of their own in the unit"""
    for a, b, n in reversed(rust.nested_fns(body)):
        body = body[:a] + body[b:]
    return re.sub(r"(?<![\w])type\s+\w+\s*=[^;]*;", "", body)


def desugar(body, ls, loops, label):
    """for PAT in EXPR { .. }  ->  let mut it = vx_iter(EXPR); loop { match it.next() { .. } .. } where the contract says so"""
    for (kw, o, cl, kind), L in sorted(zip(ls, loops), key=lambda x: -x[0][0]):
        if not (isinstance(L, dict) and L.get("desugar")):
            continue
        if kind == "loop" and L.get("lowered"):
            continue  # an iterator chain, in this form already
        if kind != "for":
            raise Lost("%s: loop is not a for loop" % label)
        c = rust.code(rust.lex(body[kw:o]))
        d, k = 0, None
        for i, t in enumerate(c):
            if t[1] in "([{":
                d += 1
            elif t[1] in ")]}":
                d -= 1
            elif t[1] == "in" and t[0] == "id" and d == 0:
                k = i
                break
        pat = body[kw + c[0][3]:kw + c[k][2]].strip()
        expr = body[kw + c[k][3]:o].strip()
        it = L["desugar"]
        body = body[:kw] + "let mut %s = vx_iter(%s);\n loop { let vx_next = %s.next(); if vx_next.is_none() { break; } let %s = vx_next.unwrap();" % (it, expr, it, pat) + body[o + 1:]
    return body


def local_types(rel, name, container=None):
    return re.findall(r"(?<![\w])type\s+\w+\s*=[^;]*;", rust.strip_attrs(locate(rel, name, container).body))


class Unit:
    def __init__(self, name):
        self.name = name
        self.parts = []
        self.contracts = []   # (fn label, repo file, line)
        self.subs_used = []
        self.trusted = []
        self.lost = []
        self.weak = {}        # fn label -> why what the verifier does not accept of it says nothing
        self.alts = 0

    def raw(self, text):
        self.parts.append(("raw", text))

    def item(self, rel, kind, name, subs=(), prefix=""):
        s = source(rel).find_item(kind, name)
        a = source(rel).text[:source(rel).text.index(s)]
        s = re.search(r"(?:#\[[^\]]*\]\s*|//[^\n]*\n\s*|pub\b\s*(?:\([^)]*\)\s*)?)*$", a).group(0) + s
        have = set(re.findall(r"\w+", " ".join(re.findall(r"#\[derive\(([^)]*)\)\]", s))))
        lack = set(DERIVED.get(name, ()) if "/proto/" not in rel else ("Clone", "Default")) - have if kind == "struct" else ()
        if lack:  # assumed of what the compiler derives, not of a written implementation
            raise Lost("%s: %s no longer derived" % (name, ", ".join(sorted(lack))))
        if "Serialize" in have and re.search(r"#\[serde\b", s):
            raise Lost("%s: serialised in a way of its own" % name)
        s = rust.strip_attrs(s)
        s = re.sub(r"\bpub(?:\s*\([^)]*\))?\s+", "", s)
        s = self._sub(s, subs, name)
        self.parts.append(("raw", prefix + s + "\n"))
        return s

    def _sub(self, s, subs, label):
        for x in subs:
            pat, rep, why = x[0], x[1], x[2]
            must = len(x) > 3 and x[3]
            s2, n = pat(s) if callable(pat) else re.subn(pat, rep, s, flags=re.S)
            if n == 0 and must:
                raise Lost("%s: pattern %r not found" % (label, pat))
            if n:
                self.subs_used.append("%s: %s" % (label, why))
            s = s2
        return s

    def fn(self, rel, name, container=None, ret="r", spec="", loops=(), subs=(), ghost="", pre="", post_loop=None,
           hints=(), attrs="", rename=None, label=None, at_end=None, gen=None, sig_subs=(), optional_loops=False, within=None, tail=None, lead=None, exits=False, alts=()):
        if alts:
            # alternative annotations: the chosen one first, then whichever fits the shape of the function
            self.alts = max(self.alts, len(alts))
            kw = dict(ret=ret, spec=spec, loops=loops, subs=subs, ghost=ghost, pre=pre, hints=hints, attrs=attrs, rename=rename, label=label,
                      at_end=at_end, sig_subs=sig_subs, optional_loops=optional_loops, within=within, tail=tail, lead=lead, exits=exits)
            n = len(alts) + 1
            first = None
            for i in sorted(range(n), key=lambda i: i != ALT):
                a = {} if i == 0 else alts[i - 1]
                assert set(a) <= {"loops", "subs", "pre", "hints", "at_end", "tail", "lead", "exits", "optional_loops"}, a
                k = dict(kw)
                k.update(a)
                try:
                    return self.fn(rel, name, container, **k)
                except Lost as e:
                    first = first or e
            raise first
        if within:
            f = nested(locate(rel, within, container), name)
            container = None
        else:
            f = locate(rel, name, container)
        label = label or ((re.sub(r"^(impl|trait) (<[^>]*> )?", "", container.strip("^$")) + "::" if container else "") + name)
        sig = re.sub(r"\bpub(?:\s*\([^)]*\))?\s+", "", f.sig)
        sig = self._sub(sig, sig_subs, label)
        if ghost:
            c = rust.code(rust.lex(sig))
            i = next(i for i, t in enumerate(c) if t[1] == "(" and i and c[i - 1][0] == "id")
            # skip generics parens: the argument list follows the fn name (and generics)
            k = next(i for i, t in enumerate(c) if t[1] == "fn") + 2
            if c[k][1] == "<":
                d = 0
                while True:
                    d += {"<": 1, ">": -1}.get(c[k][1], 0)
                    k += 1
                    if d == 0:
                        break
            e = rust.match(c, k)
            sep = "" if c[e - 1][1] in ("(", ",") else ", "
            sig = sig[:c[e][2]] + sep + ghost + sig[c[e][2]:]
        if rename:
            sig = re.sub(r"\bfn\s+%s\b" % name, "fn " + rename, sig)
        sig = name_ret(sig, ret)
        body = rust.strip_attrs(f.body)
        body = drop_nested(body)
        body = drop_logs(body)
        body = self._sub(body, subs, label)
        body = self._sub(body, COMMON, label)
        if not any(isinstance(L, dict) and L.get("desugar") for L in loops):
            body, n = rust.no_continue(body)
            if n:
                self.subs_used.append("%s: `if c { continue; } rest` written `if c { } else { rest }` (Verus has no continue in `for`)" % label)
        cl = rust.open_closures(body)
        if cl:
            self.weak[label] = "closure without a contract in %s: %s" % (label, cl[0])
        ls = rust.loops(body)
        if len(ls) == len(loops) and any(isinstance(L, dict) and L.get("desugar") for L in loops):
            body = desugar(body, ls, loops, label)
            self.subs_used.append("%s: `for` written as the loop over next() that it stands for (Verus has no continue in `for`)" % label)
            ls = rust.loops(body)
        if len(ls) != len(loops) and not (optional_loops and len(ls) == 0):
            raise Lost("%s: %d loops, contract has %d" % (label, len(ls), len(loops)))
        # edits: (offset, order, text)
        ed = []
        nprobe = [0]

        def probe():
            nprobe[0] += 1
            return " /*VXPROBE*/ "
        for (kw, o, cl, kind), L in zip(ls, loops):
            if isinstance(L, str):
                L = {"inv": L}
            if L.get("pushed"):
                m = re.findall(r"(\w+)\s*\.\s*push\s*\(", body[o:cl])
                if len(set(m)) != 1:
                    raise Lost("%s: the loop pushes to %s" % (label, sorted(set(m))))
                L = {k: (v.replace("$V", m[0]) if isinstance(v, str) else v) for k, v in L.items()}
            if kind == "for" and L.get("iter"):
                c = rust.code(rust.lex(body[kw:o]))
                i = next(i for i, t in enumerate(c) if t[1] == "in" and t[0] == "id")
                ed.append((kw + c[i][3], 0, " %s: " % L["iter"]))
            t = "\n"
            if L.get("inv_eb"):
                t += "        invariant_except_break " + L["inv_eb"] + ",\n"
            if L.get("inv"):
                t += "        invariant " + L["inv"].strip().rstrip(",") + ",\n"
            if L.get("ens"):
                t += "        ensures " + L["ens"] + ",\n"
            if L.get("dec"):
                t += "        decreases " + L["dec"] + ",\n"
            ed.append((o, 0, t))
            ed.append((o + 1, 0, probe()))
            if L.get("start"):
                ed.append((o + 1, 1, "\n        " + L["start"] + "\n"))
            if L.get("end"):
                ed.append((cl, 0, "\n        " + L["end"] + "\n"))
            if not (kind == "loop" and not L.get("after_reachable", True)):
                ed.append((cl + 1, 0, probe()) if not L.get("tail") else (cl, 9, ""))
            if L.get("after"):
                ed.append((cl + 1, 1, "\n        " + L["after"] + "\n"))
            if L.get("before"):
                ed.append((kw, 0, L["before"] + "\n        "))
        if lead:  # a hint before the value of the body
            ed.append((tail_start(body, ls), 2, "\n    " + lead + "\n    "))
        if tail:
            at = tail_start(body, ls)
            if body[at:body.rindex("}")].strip():
                # the hint goes after the value of the body and before the return
                res = re.search(r"->\s*\(%s:\s*Result\b" % re.escape(ret), sig) is not None
                h = re.sub(r"^\s*proof \{", "proof { if vx_tail is Ok {", tail, count=1) + " }" if res else tail
                ed.append((at, 3, " let vx_tail = "))
                ed.append((body.rindex("}"), 8, ";\n    " + h + "\n    vx_tail "))
            else:
                res, h = False, tail
                ed.append((at, 3, "\n    " + tail + "\n    "))
            if exits:
                c = rust.code(rust.lex(body))
                for i, t in enumerate(c):
                    if t[1] == "return" and t[0] == "id" and c[i + 1][1] != ";":
                        j, d = i + 1, 0
                        while not (d == 0 and c[j][1] in (";", ",", "}")):
                            d += {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(c[j][1], 0)
                            j += 1
                        ed.append((t[2], 3, "{ let vx_tail%s = " % (": " + re.search(r"->\s*\(%s:\s*(.*)\)" % re.escape(ret), sig, re.S).group(1) if res else "")))
                        ed.append((t[3], -9, (t[2], "return")))
                        ed.append((c[j][2], -5, "; " + h + " return vx_tail; }"))
        for pat, where, text in hints:
            ms = list(re.finditer(pat, body, flags=re.S))
            if len(ms) != 1:
                raise Lost("%s: hint anchor %r matches %d times" % (label, pat, len(ms)))
            ed.append((ms[0].start() if where == "before" else ms[0].end(), 2, "\n        " + text + "\n        "))
        ed.sort(key=lambda x: (x[0], x[1]))
        for off, _, t in reversed(ed):
            if isinstance(t, tuple):
                body = body[:t[0]] + body[off:]  # a keyword that moves
            else:
                body = body[:off] + t + body[off:]
        inner = body[1:-1]
        text = attrs + ("\n" if attrs else "") + sig + "\n    " + spec.strip() + "\n{" + probe()
        if pre:
            text += "\n    " + pre + "\n"
        text += inner + ("\n    " + at_end + "\n" if at_end else "") + "}\n"
        self.parts.append(("fn", text, label, f.file, f.line))
        self.contracts.append((label, f.file, f.line))

    def open(self, header):
        self.parts.append(("raw", header + " {\n"))

    def close(self):
        self.parts.append(("raw", "}\n"))

    def std(self):
        """assumed contracts of std functions, each only where the source uses it"""
        src = "".join(p[1] for p in self.parts if p[0] == "fn")
        all_ = "".join(p[1] for p in self.parts)
        return "".join(("pub assume_specification%s\n" if spec[0] in " <[" else "%s\n") % spec for pat, name, spec in STD if re.search(pat, src) and name not in all_ and ("fbits(" not in spec or "spec fn fbits" in all_))

    def render(self, probes=False, isolation=True):
        """-> text, [(first line, last line, label, file, line)], number of probes"""
        prelude = PRELUDE if isolation else "#![verifier::loop_isolation(false)] #![verifier::allow_complex_invariants] " + PRELUDE
        out, marks, n = [prelude], [], 0
        line = PRELUDE.count("\n") + 1
        np = 0
        for p in self.parts:
            t = p[1]
            if p[0] == "fn":
                if probes:
                    np += t.count("/*VXPROBE*/")
                    t = t.replace("/*VXPROBE*/", "if vx_probe() { proof { assert(false); } }")
                else:
                    t = t.replace("/*VXPROBE*/", "")
                marks.append((line, line + t.count("\n"), p[2], p[3], p[4]))
            if not t.endswith("\n"):
                t += "\n"
            out.append(t)
            line += t.count("\n")
        out.append(self.std())
        out.append("#[verifier::external_body]\nfn vx_probe() -> bool { false }\n} // verus!\nfn main() {}\n")
        return "".join(out), marks, np

    def trusted_base(self):
        """every assumption in the text: external bodies, assumed specifications, axioms, admits, assumes"""
        t = "".join(p[1] for p in self.parts) + self.std()
        t = rust.strip_comments(t)
        out = []
        for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]*(?:\[[^\]]*\])?[^\]]*)\]", t):
            out.append("assumed contract: " + " ".join(m.group(1).split()))
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+)?(fn|struct)\s+(\w+)", t):
            out.append("external body: %s %s" % (m.group(1), m.group(2)))
        for m in re.finditer(r"\baxiom fn (\w+)", t):
            out.append("axiom: " + m.group(1))
        for m in re.finditer(r"\b(admit|assume)\s*\(", t):
            out.append("%s() in the text" % m.group(1))
        for m in re.finditer(r"#\[verifier::(exec_allows_no_decreases_clause|external_type_specification|external_trait_specification)\]", t):
            if m.group(1) == "exec_allows_no_decreases_clause":
                out.append("termination not checked (exec_allows_no_decreases_clause)")
        seen = []
        for x in out:
            if x not in seen:
                seen.append(x)
        return seen


# derived implementations the units assume something of
DERIVED = {"Label": ("Hash", "Clone"), "Labels": ("Clone",), "TimePoint": ("Clone",), "TimeSeries": ("Clone",), "Bstream": ("Clone",), "BstreamSeeker": ("Clone",),
           "GorillaDecompactor": ("Clone",), "ChunkOpts": ("Serialize", "Deserialize"), "ChunkMetadata": ("Serialize", "Deserialize"), "DbMetadata": ("Serialize", "Deserialize")}

# (where it is used, its name in a unit that has a contract of its own for it, the contract)
# calls written as calls with a contract, in any function
COMMON = [
    (r"(\w+(?:\.\w+)*)\.drain\(\s*\.\.\s*([^()]+?)\s*\)\s*;", r"vx_drain_front(&mut \1, \2);", "drain(..n) dropped at once written vx_drain_front"),
    (r"(\w+(?:\.\w+)*(?:\.lock\(\)\.unwrap\(\))?)\.drain\(\s*\.\.\s*([^()]+?(?:\(\))?[^()]*?)\s*\)\.collect\(\)", r"vx_drain_some(&mut \1, \2)", "drain(..n).collect() written vx_drain_some"),
    (r"\b(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|Timestamp|TimeSeriesId)::(max|min)_value\(\)", lambda m: "%s::%s" % (m.group(1), m.group(2).upper()), "max_value() written MAX, min_value() written MIN"),
    (r"\.extend_from_slice\s*\(", ".vx_extend(", "Vec::extend_from_slice written vx_extend (whole-sequence contract)"),
    (r"(\.vx_extend\(&[\w.]+(?:\(\))?)\[\.\.\]\)", r"\1)", "full-range slice of an array or vector written as the array or vector"),
]
STD = [
    (r"\bcmp::min\s*\(|(?<![\w.])min\s*\(", "[core::cmp::min]", "<T: Ord> [core::cmp::min](a: T, b: T) -> (r: T) ensures call_ensures(T::min, (a, b), r);"),
    (r"\bcmp::max\s*\(|(?<![\w.])max\s*\(", "[core::cmp::max]", "<T: Ord> [core::cmp::max](a: T, b: T) -> (r: T) ensures call_ensures(T::max, (a, b), r);"),
    (r"\bmem::replace\s*\(", "[core::mem::replace]", "<T> [core::mem::replace](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;"),
    (r"\bmem::take\s*\(", "[core::mem::take]", "<T: Default> [core::mem::take](a: &mut T) -> (r: T) ensures r == *old(a), call_ensures(T::default, (), *final(a));"),
    (r"\.unwrap_or\s*\(", "Result::<T, E>::unwrap_or]", "<T, E> [core::result::Result::<T, E>::unwrap_or](a: core::result::Result<T, E>, b: T) -> (r: T) ensures r == (match a { Ok(x) => x, Err(_) => b });"),
    (r"\.or\s*\(", "Option::<T>::or]", "<T> [core::option::Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (match a { Some(x) => Some(x), None => b });"),
    (r"\.swap\s*\(", "[<[T]>::swap]", "<T> [<[T]>::swap](s: &mut [T], a: usize, b: usize) requires a < old(s)@.len(), b < old(s)@.len(), ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);"),
    (r"\.reverse\s*\(", "[<[T]>::reverse]", "<T> [<[T]>::reverse](s: &mut [T]) ensures final(s)@ == old(s)@.reverse();"),
    (r"\.contains\s*\(", "[<[T]>::contains]", "<T: PartialEq> [<[T]>::contains](s: &[T], x: &T) -> (r: bool) ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && vstd::std_specs::cmp::PartialEqSpec::eq_spec(&#[trigger] s@[i], x);"),
    (r"\.to_vec\s*\(", "[<[T]>::to_vec]", "<T: Clone> [<[T]>::to_vec](s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]), (forall|a: T, b: T| #[trigger] cloned(a, b) ==> a == b) ==> r@ == s@;"),
    (r"\.abs\s*\(", "[i64::abs]", " [i64::abs](a: i64) -> (r: i64) requires a != i64::MIN, ensures r == (if a < 0 { -a } else { a as int });"),
    (r"\.is_nan\s*\(", "[f64::is_nan]", " [f64::is_nan](a: f64) -> (r: bool) ensures r == ((fbits(a) & 0x7fff_ffff_ffff_ffffu64) > 0x7ff0_0000_0000_0000u64);"),
    (r"\.vx_extend\s*\(", "trait VxExtend", """trait VxExtend<T> { fn vx_extend(&mut self, s: &[T]); }
impl<T: Clone> VxExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_extend(&mut self, s: &[T])
        ensures final(self)@.len() == old(self)@.len() + s@.len(), forall|i: int| 0 <= i < old(self)@.len() ==> final(self)@[i] == old(self)@[i], forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] final(self)@[old(self)@.len() + i]),
            (forall|a: T, b: T| #[trigger] cloned(a, b) ==> a == b) ==> final(self)@ == old(self)@ + s@
    { loop {} }
}"""),
    (r"\bvx_drain_front\s*\(", "fn vx_drain_front", "#[verifier::external_body]\nfn vx_drain_front<T>(v: &mut Vec<T>, n: usize) requires n <= old(v)@.len(), ensures final(v)@ == old(v)@.skip(n as int) { loop {} }"),
    (r"\bvx_drain_some\s*\(", "fn vx_drain_some", "#[verifier::external_body]\nfn vx_drain_some<T>(v: &mut Vec<T>, n: usize) -> (r: Vec<T>) requires n <= old(v)@.len(), ensures r@ == old(v)@.take(n as int), final(v)@ == old(v)@.skip(n as int) { loop {} }"),
    (r"(?s)\bString\b.*\.len\s*\(", "vx_utf8", """// the bytes of a text: none if and only if it is empty, at least one for each character
pub uninterp spec fn vx_utf8(s: Seq<char>) -> usize;
pub assume_specification [String::len](s: &String) -> (r: usize) ensures r == vx_utf8(s@), r == 0 <==> s@.len() == 0, s@.len() <= r <= isize::MAX;"""),
    (r"\.abs_diff\s*\(", "[u64::abs_diff]", " [u64::abs_diff](a: u64, b: u64) -> (r: u64) ensures r == (if a >= b { a - b } else { b - a });"),
]

PRELUDE = """#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_assignments, unused_parens, non_camel_case_types, unused_braces, unreachable_code, unused_must_use, unused_labels)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
"""
