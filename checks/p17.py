"""P17: the link code over a recording stand-in for MathLink, against the C++ interface."""
import concurrent.futures as cf
import math
import os
import re

import build
import drvlib
import match
import points

NAN = float("nan")
LL = os.path.join(build.SRC, "himalaya", "LibraryLink")
M9 = [f"{n}[{i},{j}]" for n in ("mq2", "md2", "mu2", "ml2", "me2", "Au", "Ad", "Ae", "Yu", "Yd", "Ye") for i in (1, 2, 3) for j in (1, 2, 3)]
DOCUMENTED = ["bottom", "loopOrder", "verbose", "scale", "mu", "g1", "g2", "g3", "vd", "vu", *M9, "MA", "M1", "M2", "M3", "MW", "MZ", "Mt", "Mb",
              "Mtau", "MSt[1]", "MSt[2]", "MSb[1]", "MSb[2]", "MStau[1]", "MStau[2]", "s2t", "s2b", "s2tau"]
RULES = ["hierarchyID", "hierarchyName", "Mstop", "Mh2", "Mh2ShiftDRbarPrimeToMDRPrime", "Mh2ShiftDRbarPrimeToH3m", "expansionUncertainty",
         "Mh2EFTAt", "Mh2FO", "Mh2FOAt", "lambda", "lambdaUncertainty", "lambdaShiftDRbarPrimeToMSbar"]
BANNER = re.compile(r"^\.{20,}$")


def strip_comments(t):
    return re.sub(r"\(\*.*?\*\)", "", t, flags=re.S)


def frontend():
    """argument order and default values in the package that users load"""
    t = strip_comments(open(os.path.join(LL, "Himalaya_LibraryLink.m"), encoding="utf-8").read())
    t = re.sub(r'"(?:[^"\\]|\\.)*"', '""', t, flags=re.S)
    order = []
    i = t.find("HimalayaCalculateDMh3LLibInterface[")
    if i >= 0:
        for n, ix in re.findall(r"OptionValue\[\s*(\w+)\s*\](?:\s*\[\[\s*([\d,\s]+)\]\])?", t[i:]):
            order.append(n + (f"[{re.sub(chr(92) + 's', '', ix)}]" if ix else ""))
    default = {}
    for n, v in re.findall(r"\b(\w+)\s*->\s*(-?[\d.]+|True|False|\{[-\d,.{}\s]*\})", t):
        default.setdefault(n, v)
    return order, default


def default_of(default, name):
    n, _, ix = name.partition("[")
    v = default.get(n)
    if v is None:
        return None
    if v in ("True", "False"):
        return 1.0 if v == "True" else 0.0
    nums = [float(x) for x in re.findall(r"-?[\d.]+", v)]
    if not ix:
        return nums[0]
    ix = [int(x) for x in ix.rstrip("]").split(",")]
    return nums[ix[0] - 1] if len(ix) == 1 else nums[3 * (ix[0] - 1) + ix[1] - 1]


def value(p, s, name, default):
    """the number a user passes for an option; missing optional values take the package's default"""
    if name in s:
        return float(s[name])
    n, _, ix = name.partition("[")
    v = p["MG" if n == "M3" else n]
    if ix:
        ix = [int(x) for x in ix.rstrip("]").split(",")]
        v = v[ix[0] - 1] if len(ix) == 1 else v[3 * (ix[0] - 1) + ix[1] - 1]
    if v != v and n in default and n in ("MW", "MZ", "Mt", "Mb", "Mtau", "MSt", "MSb", "MStau", "s2t", "s2b", "s2tau"):
        return default_of(default, name)
    return v


class Parse(Exception):
    pass


def parse(text):
    """the recorded tokens as exactly one expression: (head, [args]) | int | float | ('S', name) | ('T', text)"""
    toks = [x for x in text.split("\n") if x]
    pos = 0

    def arr(dims, vals):
        if not dims:
            return vals.pop(0)
        return ("List", [arr(dims[1:], vals) for _ in range(dims[0])])

    def expr():
        nonlocal pos
        if pos >= len(toks):
            raise Parse("incomplete expression")
        k, _, rest = toks[pos].partition(" ")
        pos += 1
        if k == "F":
            n, _, name = rest.partition(" ")
            return (name, [expr() for _ in range(int(n))])
        if k == "N":
            h = expr()
            return (h[1], [expr() for _ in range(int(rest))])
        if k == "I":
            return int(rest)
        if k == "R":
            return fl(rest)
        if k == "Y":
            return ("S", rest)
        if k == "T":
            return ("T", rest)
        if k == "A":
            x = rest.split()
            r = int(x[0])
            return arr([int(d) for d in x[1:1 + r]], [fl(v) for v in x[1 + r:]])
        raise Parse("unknown token " + k)
    e = expr()
    if pos != len(toks):
        raise Parse(f"{len(toks) - pos} tokens after the end of the expression, first {toks[pos][:60]!r}")
    return e


def fl(x):
    return float.fromhex(x) if "0x" in x else float(x)


def unwrap(e):
    """CompoundExpression[message, ..., reply] -> [(function, text)], reply"""
    msgs = []
    while isinstance(e, tuple) and e[0] == "CompoundExpression":
        for m in e[1][:-1]:
            if not (isinstance(m, tuple) and len(m[1]) == 1 and isinstance(m[1][0], tuple) and m[1][0][0] == "T"):
                raise Parse(f"not a message: {str(m)[:80]}")
            msgs.append((m[0], m[1][0][1]))
        e = e[1][-1]
    return msgs, e


def flat(e):
    if isinstance(e, tuple):
        if e[0] != "List":
            raise Parse(f"unexpected {e[0]}")
        return [y for x in e[1] for y in flat(x)]
    return [float(e)]


def shape(e):
    if not isinstance(e, tuple):
        return ()
    s = {shape(x) for x in e[1]}
    if e[0] != "List" or len(s) != 1:
        raise Parse("ragged array")
    return (len(e[1]), *s.pop())


def expected(d, order):
    z4 = [0.0] * 4
    tr = lambda v: [v[0], v[1] if order > 0 else 0.0, v[2] if order > 1 else 0.0, 0.0]
    return {
        "Mh2": ((4, 2, 2), d["DMh0"] + d["DMh1"] + d["DMh2L"] + d["DMh3"]),
        "Mh2ShiftDRbarPrimeToMDRPrime": ((4, 2, 2), [0.0] * 12 + d["mdrShift"]),
        "Mh2ShiftDRbarPrimeToH3m": ((4, 2, 2), [0.0] * 12 + d["h3mShift"]),
        "expansionUncertainty": ((4,), [0.0] + d["expUnc"]),
        "Mh2EFTAt": ((4,), d["DMh2EFT"] if order > 2 else tr(d["eft"])),
        "Mh2FO": ((4,), d["DMh2FO"] if order > 2 else tr(d["fo"])),
        "Mh2FOAt": ((4,), d["DMh2FOAt"] if order > 2 else tr(d["fo_at"])),
        "lambda": ((4,), d["DLambda"]),
        "lambdaUncertainty": ((4,), [0.0, 0.0, 0.0, d["DLambdaUnc"][3]]),
        "lambdaShiftDRbarPrimeToMSbar": ((4,), d["DLambdaMSbarShift"]),
        "M": ((2,), d["mdrMasses"]),
    }, z4


def eq(a, b, floor, rel=1e-10):
    return (a != a and b != b) or a == b or abs(a - b) <= rel * abs(b) + floor


def lines(*texts):
    return [x for t in texts for x in t.split("\n") if x]


def clean(x):
    return x.replace("\\\\", "\\").replace("\x1b", "?")


def check_reply(ctx, where, e, d, s, replay, banners):
    order = int(s["loopOrder"])
    try:
        msgs, reply = unwrap(parse(e["tokens"]))
    except Parse as x:
        ctx.violate("protocol", f"{where}: {x}", replay)
        return
    if e["rc"] != 0:
        ctx.violate("return-value", f"{where}: returns {e['rc']} for a well-formed request", replay)
    if e["news"] < 1 or e["left"]:
        ctx.violate("input-left", f"{where}: {e['left']} tokens of the request not consumed, {e['news']} new packets", replay)
    info = [clean(t) for f, t in msgs if f == "HimalayaInfoMessage"]
    err = [clean(t) for f, t in msgs if f == "HimalayaErrorMessage"]
    other = [f for f, _ in msgs if f not in ("HimalayaInfoMessage", "HimalayaErrorMessage")]
    if other:
        ctx.violate("protocol", f"{where}: unknown message function {other[0]}", replay)
    # banner and information lines are compared as sets of lines
    got, must, may = set(filter(None, info)), set(lines(d.get("err", ""), d.get("out", ""))), set(lines(d["err2"], d["out2"]))
    ban = lambda v: sum(1 for x in v if BANNER.match(x))
    banners["link"] += ban(info)
    banners["direct"] += ban(lines(d["err2"], d["out2"]))
    want = must | (may if order > 2 else set())
    ctx.ev()
    if want - got:
        ctx.violate("message-lost", f"{where}: {sorted(want - got)[0]!r} was not forwarded", replay)
    if got - must - may:
        ctx.violate("message-invented", f"{where}: {sorted(got - must - may)[0]!r} forwarded, not written by the C++ interface", replay)
    ctx.count("messages forwarded", len(info))
    if d["thrown"]:
        ctx.count("calculations that threw")
        if reply != ("S", "$Failed") or not err:
            ctx.violate("failure-reply", f"{where}: the calculation throws {d['thrown']!r}, the reply is {str(reply)[:80]} with error messages {err}", replay)
        elif err != [d["thrown"]]:
            ctx.violate("failure-message", f"{where}: the calculation throws {d['thrown']!r}, the error messages are {err}", replay)
        return
    if err:
        ctx.violate("spurious-error", f"{where}: error {err[0]!r} for a request that the C++ interface accepts", replay)
        return
    bottom = bool(s["bottom"])
    names = [("MsbottomMDRPrime" if bottom else "MstopMDRPrime") if n == "Mstop" else n for n in RULES]
    if not isinstance(reply, tuple) or reply[0] != "List" or any(not isinstance(x, tuple) or x[0] != "Rule" or len(x[1]) != 2 or x[1][0][0] != "S" for x in reply[1]):
        ctx.violate("reply-shape", f"{where}: the reply is not a list of rules: {str(reply)[:100]}", replay)
        return
    have = [x[1][0][1] for x in reply[1]]
    if have != names:
        ctx.violate("reply-names", f"{where}: rules {have} instead of {names}", replay)
        return
    val = {x[1][0][1]: x[1][1] for x in reply[1]}
    ctx.ev(2)
    if val["hierarchyID"] != int(d["hierarchy"]) or not isinstance(val["hierarchyID"], int):
        ctx.violate("value:hierarchyID", f"{where}: hierarchyID {val['hierarchyID']!r}, C++ returns {d['hierarchy']}", replay)
    if not isinstance(val["hierarchyName"], tuple) or val["hierarchyName"][1] != d["notation"]:
        ctx.violate("value:hierarchyName", f"{where}: hierarchyName {val['hierarchyName']!r}, C++ returns {d['notation']}", replay)
    exp, _ = expected(d, order)
    for n in names[2:]:
        sh, w = exp["M" if n.startswith("Ms") else n]
        try:
            if shape(val[n]) != sh:
                ctx.violate(f"shape:{n}", f"{where}: {n} has shape {shape(val[n])} instead of {sh}", replay)
                continue
            g = flat(val[n])
        except (Parse, TypeError, ValueError) as x:
            ctx.violate(f"shape:{n}", f"{where}: {n}: {x}", replay)
            continue
        floor = 1e-13 * max([abs(x) for x in w if math.isfinite(x)], default=0)
        for k, (a, b) in enumerate(zip(g, w)):
            ctx.ev()
            if not eq(a, b, floor, 1e-8 if n == "Mh2FO" else 1e-10):   # two-loop routines amplify rounding errors
                ctx.violate(f"value:{n}[{k}]", f"{where}: {n}[{k}] is {a!r}, the C++ interface returns {b!r}", replay)
    ctx.sample(f"{where}: {len(flat(val['Mh2']))} entries of Mh2, {len(info)} messages, hierarchy {val['hierarchyID']}")


def point(r):
    c = r.randrange(8)
    p = points.hierarchy_like(r) if c < 2 else points.mixed(r) if c == 2 else match.given(r, points.mixed(r)) if c == 3 else \
        match.coincident(r) if c == 4 else points.susy(r)
    p["massLimit3LThreshold"] = 0
    for k in ("theta_t", "theta_b", "theta_tau"):      # not part of the interface
        p[k] = NAN
    d = points.default()
    for k in ("MW", "MZ", "Mt", "Mb", "Mtau"):
        if r.random() < .5:
            p[k] = r.uniform(1, 180) if r.random() < .5 else NAN
    # every number differs, so that exchanged arguments are visible
    for k in points.M33:
        p[k] = [x if x else (r.uniform(-1, 1) * 1e-3 if k[0] == "Y" else r.uniform(-1, 1) if k[0] == "A" else r.random()) for x in p[k]]
    for k in ("mq2", "md2", "mu2", "ml2", "me2"):
        for i, j in ((1, 3), (2, 6), (5, 7)):
            p[k][j] = p[k][i]
    if c == 6:
        k = r.randrange(7)
        if k == 0:
            p[r.choice(("mq2", "mu2", "md2", "ml2", "me2"))][8] *= -1
        elif k == 1:
            p["MG"] = -p["MG"]
        elif k == 2:
            p["vu"] = 0.0
        elif k == 3:
            p["MSt"] = [p["scale"], NAN]
        elif k == 4:
            p["s2b"] = r.uniform(-1, 1)
        elif k == 5:
            p["Mt"] = NAN
        else:
            p["scale"] = -p["scale"]
    for m, s2 in (("MSt", "s2t"), ("MSb", "s2b"), ("MStau", "s2tau")):
        if p[s2] == p[s2] and abs(p[s2]) > 1:
            p[s2] = NAN
    if c == 7:                 # optional values at the borders of their ranges
        for m, s2 in (("MSt", "s2t"), ("MSb", "s2b"), ("MStau", "s2tau")):
            k = r.random()
            if k < .8:
                p[m] = [r.uniform(.3, 1) * p["scale"], r.uniform(.5, 2) * p["scale"]]
                p[s2] = r.choice((1.0, -1.0, 0.0, -0.0, 1 - 2.0 ** -53, -1 + 2.0 ** -53, 1 + 2.0 ** -52, -1 - 2.0 ** -52, -2.0, 1e-300))
                if k < .2:
                    p[m][r.randrange(2)] = r.choice((0.0, -0.0, -1.0))
        for k in ("MW", "MZ", "Mt", "Mb", "Mtau"):
            if r.random() < .3:
                p[k] = r.choice((0.0, -0.0, -1.0))
    return p, d


def direct_point(p):
    """what the request means in terms of the C++ interface"""
    q = {k: (list(v) if isinstance(v, list) else v) for k, v in p.items()}
    q = points.Point(q) if hasattr(points, "Point") else q
    for m, s2 in (("MSt", "s2t"), ("MSb", "s2b"), ("MStau", "s2tau")):
        ok = q[m][0] > 0 and q[m][1] > 0 and abs(q[s2]) <= 1
        if not ok:
            q[m], q[s2] = [NAN, NAN], NAN
    for k in ("MW", "MZ", "Mt", "Mb", "Mtau"):
        if not q[k] > 0:
            q[k] = NAN
    return q


def request(toks, fail_at=0, sticky=0):
    return f"link {fail_at} {sticky} {len(toks)} " + " ".join(toks)


def wellformed(vals, r=None):
    out = ["F List 1", f"F List {len(vals)}"]
    for v in vals:
        if r is not None and v == v and abs(v) < 2**31 and v == int(v) and r.random() < .5:
            out.append(f"I {int(v)}")
        else:
            out.append(f"R {points.num(v)}")
    return out


def malformed(r, vals):
    """a request that is not a list of 127 numbers: (tokens, kind)"""
    t = wellformed(vals)
    c = r.randrange(9)
    if c == 0:
        n = r.choice((0, 1, 2, 3, len(vals) - 1, len(vals) + 1, len(vals) + 40))
        return wellformed((vals * 2)[:n]), "length"
    if c == 1:
        t[r.randrange(2, len(t))] = r.choice(("Y foo", "T text", "F Complex 2"))
        return t, "element"
    if c == 2:
        return ["F List 1", "Y foo"], "symbol"
    if c == 3:
        return ["F List 1", f"F Vector {len(vals)}", *t[2:]], "head"
    if c == 4:
        return ["F List 1", "R 0x1p+0"], "number"
    if c == 5:
        return ["F List 0"], "count"
    if c == 6:
        return [f"F List {r.choice((2, 127))}", *t[1:]], "count"
    if c == 7:
        return ["F List 1", f"F List {len(vals)}", *t[2:r.randrange(2, len(t))]], "truncated"
    return [r.choice(("Y foo", "F Foo 1"))] + t[1:], "count"


def run(ctx):
    src = [f for f in build.walk(LL, (".cpp", ".cc", ".cxx"))]
    exe = build.build("mlink", ["mlink.cpp"], build.library_sources() + src, extra=["-I" + os.path.join(build.VERIF, "harness", "mathlink")],
                      variant="asan" if ctx.thorough and ctx.seed % 2 else "plain")
    r = ctx.rng()
    order, default = frontend()
    if sorted(order) != sorted(DOCUMENTED):
        ctx.notes["front end"] = f"arguments of the package not recognised ({len(order)}); documented order used"
        order = DOCUMENTED
    else:
        ctx.count("arguments found in the package", len(order))
    if any(default_of(default, n) is None for n in order):
        for n in order:
            k = n.partition("[")[0]
            default.setdefault(k, "{-1,-1}" if "[" in n else "-2" if n.startswith("s2") else "-1")

    jobs = []
    for h in range(ctx.n(400, 6000)):
        link, direct, meta = ["meta"], [], [("meta",)]
        for _ in range(14):
            p, _d = point(r)
            s = {"bottom": r.randrange(2), "loopOrder": r.choice((3, 3, 3, 3, 2, 1, 0, 4)), "verbose": r.randrange(2)}
            vals = [value(p, s, n, default) for n in order]
            toks = wellformed(vals, r)
            c = r.random()
            if c < .55:
                link.append(request(toks))
                meta.append(("good", s, len(direct)))
                direct.append(f"direct {s['loopOrder']} {s['verbose']} {s['bottom']} {points.ser(direct_point(p))}")
            elif c < .75:
                t, kind = malformed(r, vals)
                link.append(request(t))
                meta.append(("malformed", kind))
            elif c < .88:     # a read fails
                at = 2 + r.randrange(1, len(vals) + 2)
                link.append(request(toks, at, 0))
                meta.append(("read-fault", at))
            else:             # anything fails
                at, sticky = 2 + r.randrange(0, 260), r.randrange(2)
                if r.random() < .3:
                    at = r.randrange(1, 4)
                s["verbose"] = 0
                vals = [value(p, s, n, default) for n in order]
                link.append(request(wellformed(vals), at, sticky))
                meta.append(("fault", at, sticky))
            if meta[-1][0] == "good" or r.random() < .3:
                continue
            # the next request has to work
            p, _d = point(r)
            s = {"bottom": r.randrange(2), "loopOrder": r.choice((3, 2)), "verbose": r.randrange(2)}
            link.append(request(wellformed([value(p, s, n, default) for n in order], r)))
            meta.append(("good", s, len(direct)))
            direct.append(f"direct {s['loopOrder']} {s['verbose']} {s['bottom']} {points.ser(direct_point(p))}")
        jobs.append((link, direct, meta))
    with cf.ThreadPoolExecutor(drvlib.JOBS) as ex:
        le = list(ex.map(lambda j: drvlib.run_shard(exe, j[0]), jobs))
        de = list(ex.map(lambda j: drvlib.run_shard(exe, j[1]), jobs))
    for h, ((link, direct, meta), L, D) in enumerate(zip(jobs, le, de)):
        banners = {"link": 0, "direct": 0}
        hist = []
        for k, (m, q, e) in enumerate(zip(meta, link, L)):
            hist.append(m[0])
            where = f"history {h} request {k} ({m[0]}{' ' + str(m[1:]) if m[0] != 'good' else ''} after {hist[-3:-1]})"
            replay = [x[:4000] for x in link[:k + 1]][-3:]
            if "crash" in e:
                ctx.violate("crash:" + m[0], f"{where}: {str(e)[:300]}", replay)
                continue
            ctx.ev()
            if m[0] == "meta":
                if not (e["version"] and e["init"]):
                    ctx.violate("library-version", f"{where}: {e}", replay)
                continue
            ctx.seen(m[0] + (f" {m[1]}" if m[0] == "malformed" else ""), q)
            ctx.count("link calls", e["calls"])
            if not e["same"]:
                ctx.violate("streams:" + m[0], f"{where}: the state of the standard streams was not restored", replay)
            if e["thrown"] or e["rc"] == -1:
                ctx.violate("exception:" + m[0], f"{where}: exception {e['thrown']!r} escapes into the Wolfram kernel", replay)
            count = m[0] == "malformed" and m[1] == "count"
            if e["out"] or (e["err"] and not count and m[0] != "fault"):
                ctx.violate("output:" + m[0], f"{where}: wrote {(e['out'] or e['err'])[:150]!r} to the process output", replay)
            if m[0] == "good":
                d = D[m[2]]
                if "crash" in d:
                    ctx.count("direct call crashed")
                    continue
                ctx.count(f"requests with loopOrder {m[1]['loopOrder']} bottom {m[1]['bottom']} verbose {m[1]['verbose']}")
                check_reply(ctx, where, e, d, m[1], replay, banners)
                if banners["link"] > 2:
                    ctx.violate("banner", f"{where}: banner repeated", replay)
            elif m[0] == "malformed" and m[1] == "count":
                if e["rc"] == 0:
                    # accepted only with an error reply
                    try:
                        msgs, reply = unwrap(parse(e["tokens"]))
                    except Parse as x:
                        msgs, reply = [], str(x)
                    if reply != ("S", "$Failed") or not any(f == "HimalayaErrorMessage" for f, _ in msgs):
                        ctx.violate("malformed:count", f"{where}: accepted with the reply {str(reply)[:80]}", replay)
            elif m[0] in ("malformed", "read-fault"):
                try:
                    msgs, reply = unwrap(parse(e["tokens"]))
                except Parse as x:
                    ctx.violate("protocol:" + m[0], f"{where}: {x}", replay)
                    continue
                if reply != ("S", "$Failed") or sum(1 for f, t in msgs if f == "HimalayaErrorMessage" and t) != 1:
                    ctx.violate("error-reply:" + m[0], f"{where}: reply {str(reply)[:80]}, messages {[f for f, _ in msgs][:4]}", replay)
                if e["rc"] != 0:
                    ctx.violate("return-value:" + m[0], f"{where}: returns {e['rc']}", replay)
        if banners["link"] != banners["direct"]:
            # the banner goes with the first verbose calculation of the process
            ctx.count("banner in another request")
    return ctx.finish("exercised", "distinct requests (well-formed, malformed, failing link) served by the real link code", 300)
