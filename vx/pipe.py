"""Iterator chains written as the loops they stand for.

`SRC.into_iter()[.rev()].filter(|p| C).map(|p| E)...collect::<Vec<_>>()` becomes

    { let mut vx_out = Vec::new(); let mut vx_it = vx_iter(SRC);
      loop { let vx_next = vx_it.next(); if vx_next.is_none() { break; } let vx_x = vx_next.unwrap();
             { let p = &vx_x; if !(C) { continue; } }  let vx_x = { let p = vx_x; E };  ...  vx_out.push(vx_x); }
      vx_out }

with the closure bodies in place, which is what the lazy adaptors do element by element. Collecting into a `Result<Vec<_>>` is
accepted when `?` follows at once: the first error then leaves the function, as in the loop. Anything else is refused."""
import re
from . import rust
from .rust import Lost

SOURCES = {"into_iter", "iter", "keys"}
ADAPT = {"filter", "map", "filter_map", "rev", "cloned"}


def _back(c, k):
    """start of the postfix expression whose `.collect` has its dot at c[k]"""
    i = k
    while True:
        j = i - 1  # c[i] is a dot; c[j] the end of the operand
        if c[j][1] == "?":
            j -= 1
        if c[j][1] in (")", "]"):
            d = 0
            while True:
                if c[j][1] in (")", "]", "}"):
                    d += 1
                elif c[j][1] in ("(", "[", "{"):
                    d -= 1
                    if d == 0:
                        break
                j -= 1
            j -= 1
            if c[j][1] == ">":  # turbofish
                d = 0
                while True:
                    d += {">": 1, "<": -1}.get(c[j][1], 0)
                    j -= 1
                    if d == 0:
                        break
                if c[j][1] != "::":
                    raise Lost("iterator chain not understood")
                j -= 1
        if c[j][0] != "id":
            return j + 1
        while j >= 2 and c[j - 1][1] == "::" and c[j - 2][0] == "id":
            j -= 2
        if c[j - 1][1] == ".":
            i = j - 1
            continue
        return j


def _calls(c, i, k):
    """[(method, turbofish text tokens, open, close, dot)] of the postfix calls from c[i] on, up to and with the dot at c[k]"""
    out = []
    while i <= k:
        if c[i][1] in rust.OPEN:
            i = rust.match(c, i) + 1
            continue
        if c[i][1] == "." and c[i + 1][0] == "id":
            name, j, tf = c[i + 1][1], i + 2, []
            if j < len(c) and c[j][1] == "::" and c[j + 1][1] == "<":
                d, j = 0, j + 1
                while True:
                    d += {"<": 1, ">": -1}.get(c[j][1], 0)
                    tf.append(c[j][1])
                    j += 1
                    if d == 0:
                        break
            if c[j][1] == "(":
                e = rust.match(c, j)
                out.append((name, tf, j, e, i))
                i = e + 1
                continue
            out.append((name, None, j, j, i))
        i += 1
    return out


def _closure(s, c, o, e):
    """pattern and body of the closure that is the only argument, or a path"""
    if c[o + 1][1] == "move":
        o += 1
    if c[o + 1][1] != "|":
        f = s[c[o][3]:c[e][2]].strip()
        if not re.match(r"^[\w:<>]+$", f):
            raise Lost("iterator chain: argument %r" % f)
        return None, f
    j, d = o + 2, 0
    while c[j][1] != "|" or d:
        d += {"(": 1, ")": -1, "<": 1, ">": -1, "[": 1, "]": -1}.get(c[j][1], 0)
        j += 1
    pat = s[c[o + 1][3]:c[j][2]].strip()
    b = j + 1
    if c[b][1] == "->":
        while c[b][1] != "{":
            b += 1
    body = s[c[b][2]:c[e][2]].strip().rstrip(",").strip()
    m = re.match(r"^([\w]+|\([^:]*\))\s*:\s*(.+)$", pat, re.S)
    typ = ""
    if m and not pat.startswith("|"):
        pat, typ = m.group(1), m.group(2)
    if re.search(r"\breturn\b", body):
        raise Lost("iterator chain: return in a closure")
    return (pat, typ), body


def _plain(c, calls):
    """only maps by a named function, which Verus takes as they are"""
    return all(x[0] == "map" and all(t[0] == "id" or t[1] == "::" for t in c[x[2] + 1:x[3]]) for x in calls if x[0] in ADAPT)


def lower(s, types=(), keep=False):
    """-> (text, number of chains rewritten); types: element types to write down where the source leaves them to inference;
    keep: leave chains that only map by a named function"""
    n = 0
    while True:
        c = rust.code(rust.lex(s))
        best = None
        for k in range(1, len(c)):
            if c[k][1] == "." and k + 1 < len(c) and c[k + 1][1] == "collect":
                i = _back(c, k)
                calls = _calls(c, i, k)
                src = [x for x in range(len(calls)) if calls[x][0] in SOURCES]
                names = [x[0] for x in calls]
                if not any(a in ("filter", "map", "filter_map") for a in names):
                    continue
                if keep and _plain(c, calls[max([x for x in src if x < len(calls)] or [0]):]):
                    continue
                if best is None or i < best[0]:
                    best = (i, k, calls)
                    break  # source order: the outermost chain that starts first
        # an enclosing chain ends later than one inside it: look for one that contains it
        if best:
            for k in range(best[1] + 1, len(c)):
                if c[k][1] == "." and c[k + 1][1] == "collect":
                    i = _back(c, k)
                    calls = _calls(c, i, k)
                    if i < best[0] and not (keep and _plain(c, calls[max([x for x in range(len(calls)) if calls[x][0] in SOURCES] or [0]):])):
                        best = (i, k, calls)
        if not best:
            return s, n
        s = _rewrite(s, c, *best, n, types[n] if n < len(types) else None)
        n += 1


def _rewrite(s, c, i, k, calls, n, typ):
    N = "" if n == 0 else str(n)
    names = [x[0] for x in calls]
    # last source method followed only by adaptors and the collect
    at = len(calls) - 2
    while at >= 0 and names[at] in ADAPT and calls[at][1] is not None:
        at -= 1
    if at < 0 or names[at] not in SOURCES:
        raise Lost("iterator chain: %s" % ".".join(names))
    base = s[c[i][2]:c[calls[at][4]][2]]
    col = calls[-1]
    tf = "".join(col[1] or [])
    end = c[col[3]][3]
    result = False
    if tf.startswith("<Result<Vec<"):
        if col[3] + 1 >= len(c) or c[col[3] + 1][1] != "?":
            raise Lost("iterator chain: collect::<%s> without ?" % tf)
        result, end = True, c[col[3] + 1][3]
    elif tf and not tf.startswith("<Vec<"):
        raise Lost("iterator chain: collect::%s" % tf)
    src = {"into_iter": "%s", "iter": "vx_refs(&%s)", "keys": "%s.keys()"}[names[at]] % base
    ads = calls[at + 1:-1]
    while ads and ads[0][0] in ("rev", "cloned"):
        if ads[0][0] == "rev":
            src = "vx_rev(%s)" % src
            ads = ads[1:]
        elif len(ads) > 1 and ads[1][0] == "rev":
            ads = [ads[1], ads[0]] + ads[2:]
        else:
            break
    x = "vx_x" + N
    body = ""
    for idx, (m, _, o, e, _d) in enumerate(ads):
        if m == "rev":
            raise Lost("iterator chain: rev after %s" % ads[0][0])
        if m == "cloned":
            body += "let %s = %s.clone();\n" % (x, x)
            continue
        p, b = _closure(s, c, o, e)
        last = idx == len(ads) - 1
        if "?" in [t[1] for t in rust.code(rust.lex(b))] and not (result and last and m == "map"):
            raise Lost("iterator chain: ? in a closure")
        if m == "filter":
            cond = "%s(&%s)" % (b, x) if p is None else None
            body += "if !%s { continue; }\n" % cond if cond else "{ let %s = &%s; if !(%s) { continue; } }\n" % (p[0], x, b)
        else:
            val = "%s(%s)" % (b, x) if p is None else "{ let %s%s = %s; %s }" % (p[0], ": " + p[1] if p[1] else "", x, b)
            if m == "filter_map":
                body += "let vx_o = %s; if vx_o.is_none() { continue; } let %s = vx_o.unwrap();\n" % (val, x)
            else:
                if result and last:
                    if p is not None:
                        t = b.strip()
                        cc = rust.code(rust.lex(t))
                        if len(cc) > 3 and cc[0][1] == "Ok" and cc[1][1] == "(" and rust.match(cc, 1) == len(cc) - 1:
                            t = t[cc[1][3]:cc[-1][2]]
                        else:
                            t = "(%s)?" % t
                        val = "{ let %s%s = %s; %s }" % (p[0], ": " + p[1] if p[1] else "", x, t)
                    else:
                        val += "?"
                body += "let %s = %s;\n" % (x, val)
    if result and not (ads and ads[-1][0] == "map"):
        raise Lost("iterator chain: collect into Result without a map before it")
    out = ("({ let mut vx_out%s%s = Vec::new(); let mut vx_it%s = vx_iter(%s);\nloop { let vx_next%s = vx_it%s.next(); if vx_next%s.is_none() { break; } let %s = vx_next%s.unwrap();\n%svx_out%s.push(%s); }\nvx_out%s })"
           % (N, ": Vec<%s>" % typ if typ else "", N, src, N, N, N, x, N, body, N, x, N))
    return s[:c[i][2]] + out + s[end:]


WHY = "iterator chain written as the loop it stands for (vx/pipe.py)"
LOWER = (lower, None, WHY)


def lowering(*types, keep=False):
    return (lambda s: lower(s, types, keep), None, WHY)
