"""Seeded random documents, queries, filters and histories, far larger than the exhaustive bounds."""

def cps(s):
    return [ord(c) for c in s]

NAMES = ["a", "b", "div", "li", "x-y", "A", "aa", "é", "日本"]
ATTRS = ["x", "y", "class", "id", "X", "xx", "data-a", "é"]
VALUES = ["1", "2", "a", "", "a b", "A", "x", "class", "é", " 1", "a\nx", "1\r\na"]
PARENTS = {"el", "tagonly", "bag", "rich"}


def node(rng, d, kinds):
    k = rng.choice(kinds)
    n = rng.choice(NAMES) if k in ("el", "void", "raw", "tagonly", "rich") else ""
    a = {}
    if k in ("el", "void", "raw", "bag", "rich"):
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5])):
            a[rng.choice(ATTRS)] = rng.choice(VALUES)
    t = rng.choice(VALUES + ["text", "two\nlines", "\u2003"]) if k in ("text", "comment", "raw", "doctype", "cdata", "rich") else ""
    return {"d": d, "k": k, "n": cps(n), "a": [[cps(x), cps(y)] for x, y in sorted(a.items())], "t": cps(t)}


COMMON = ["el"] * 6 + ["void", "raw", "text", "text", "comment"]
ALLKINDS = ["el"] * 8 + ["void", "raw", "text", "text", "comment", "doctype", "cdata", "pi"]
CUSTOM = ALLKINDS + ["tagonly", "bag", "rich"]


def doc(rng, size, shape=None, kinds=None):
    kinds = kinds or rng.choice([COMMON, ALLKINDS, CUSTOM])
    shape = shape or rng.choice(["random", "deep", "wide", "random", "comb", "bursts"])
    out = []
    # now and then the same few nodes over and over
    few = [node(rng, 0, kinds) for _ in range(3)] if rng.random() < .15 else None
    for i in range(size):
        if not out:
            d = 0
        else:
            top = out[-1]["d"] + (1 if out[-1]["k"] in PARENTS else 0)
            if shape == "deep":
                d = top if rng.random() < .9 else rng.randint(0, top)
            elif shape == "wide":
                d = min(top, rng.choice([0, 1, 1, 1, 2]))
            elif shape == "comb":
                d = top if i % 2 else max(0, top - 1)
            elif shape == "bursts":
                d = top if rng.random() < .5 else (0 if rng.random() < .2 else max(0, top - rng.randint(0, 3)))
            else:
                d = rng.randint(0, top)
        ks = [k for k in kinds if k in PARENTS] if shape == "deep" and rng.random() < .8 else kinds
        out.append({**rng.choice(few), "d": d} if few else node(rng, d, ks))
    return out


def chain(n, tail=3):
    """One path of n elements, then nodes at the bottom and back at the top."""
    e = lambda d, k="el", nm="a": {"d": d, "k": k, "n": cps(nm) if k == "el" else [], "a": [], "t": cps("t") if k == "text" else []}
    return [e(i) for i in range(n)] + [e(n, "text")] + [e(n)] + [e(0, nm="b") for _ in range(tail)]


def flat(n):
    """n siblings below one root, and n roots."""
    e = lambda d: {"d": d, "k": "el", "n": cps("a"), "a": [], "t": []}
    return [e(0)] + [e(1) for _ in range(n)] + [e(0) for _ in range(n)]


def pick(rng, pool, dc):
    """A pattern text: mostly something present in the document, sometimes a near miss."""
    s = rng.choice(pool)
    r = rng.random()
    if r < .06:
        s = s.upper()
    elif r < .12:
        s = s + rng.choice([" ", "x", "1"])
    elif r < .18:
        s = s[:-1]
    return s


def pat(rng, pool, dc=None):
    r = rng.random()
    none = {"v": [], "m": ""}
    if r < .12:
        return dict(none, t="bt")
    if r < .16:
        return dict(none, t="bf")
    v = cps(pick(rng, pool, dc))
    if r < .72:
        return {"t": rng.choice(["str", "str", "string", "cow", "user"]), "v": v, "m": ""}
    if r < .78 and all(c < 128 for c in v):
        return {"t": "ci", "v": v, "m": ""}
    return {"t": "re", "v": v, "m": rng.choice(["is", "pre", "suf", "sub", "line", "low", "two"] if all(c < 128 for c in v) else ["is", "pre", "suf", "sub", "line"])}


YES = {"t": "bt", "v": [], "m": ""}


def fop(rng):
    o = rng.choice(["tag", "tag", "attr", "attr", "attr_name", "attr_value", "class"])
    if o == "tag":
        return {"o": o, "p": pat(rng, NAMES), "v": YES}
    if o == "attr":
        return {"o": o, "p": pat(rng, ATTRS), "v": pat(rng, VALUES)}
    if o == "attr_name":
        return {"o": o, "p": pat(rng, ATTRS), "v": YES}
    if o == "attr_value":
        return {"o": o, "p": YES, "v": pat(rng, VALUES)}
    return {"o": o, "p": pat(rng, VALUES), "v": YES}


def mode(rng):
    return {"o": rng.choice(["strict", "recursive", "recursive"]), "p": YES, "v": YES}


def kind(rng, o):
    while True:
        f = fop(rng)
        if f["o"] == o:
            return f


TURNS = ["tag", "attr", "attr_name", "attr_value", "class"]


def query(rng, modes=.25, most=3):
    if rng.random() < .04 and most == 3:
        # many filters, of one kind or of the kinds in turn; most of them let nearly everything pass
        n, o = rng.randint(4, 8), rng.choice(TURNS + ["turns"])
        ops = []
        for k in range(n):
            f = kind(rng, TURNS[k % 5] if o == "turns" else o)
            ops.append({**f, "p": YES, "v": YES} if rng.random() < .6 else f)
        while rng.random() < modes + .3:
            ops.insert(rng.randint(0, len(ops)), mode(rng))
        return ops
    n = rng.choice([0, 1, 1, 1, 2, 2, 3])
    ops = [fop(rng) for _ in range(min(n, most))]
    while rng.random() < modes:
        ops.insert(rng.randint(0, len(ops)), mode(rng))
    return ops


def queries(n, size=120, per=14, modes=.25, kinds=None):
    def gen(rng):
        for i in range(n):
            if i % 37 == 5:
                d = chain(rng.randint(40, 200))
            elif i % 37 == 6:
                d = flat(rng.randint(40, 150))
            else:
                d = doc(rng, rng.randint(1, size), kinds=kinds)
            yield {"op": "query", "doc": d, "suite": [query(rng, modes) for _ in range(per)]}
    return gen


def pattern_queries(n, size=30, per=16):
    """The same text in every pattern type and every position, on one document."""
    def gen(rng):
        for _ in range(n):
            d = doc(rng, rng.randint(1, size), kinds=ALLKINDS)
            suite = []
            s = rng.choice(NAMES + ATTRS + VALUES)
            if rng.random() < .5:
                s = rng.choice([" " + s, s + " ", "\t" + s, s + "\n", " " + s + " ", s.upper(), s.capitalize(), s.swapcase(), s + s, s[1:], s[:-1], "*", "." + s, "^" + s, s + "$",
                                "\u00a0" + s, s + "\u200b", s.replace("é", "e\u0301"), "\ufeff" + s, s + "\0", "'" + s + "'", s + "*", "[" + s + "]", "#" + s])
            s = cps(s)
            for t, m in (("str", ""), ("string", ""), ("cow", ""), ("user", ""), ("re", "is")):
                p = {"t": t, "v": s, "m": m}
                suite += [[{"o": "tag", "p": p, "v": YES}], [{"o": "attr", "p": p, "v": pat(rng, VALUES)}], [{"o": "attr_name", "p": p, "v": YES}],
                          [{"o": "attr_value", "p": YES, "v": p}], [{"o": "class", "p": p, "v": YES}], [{"o": "attr", "p": pat(rng, ATTRS), "v": p}]]
            yield {"op": "query", "doc": d, "suite": suite}
    return gen


def travels(n, size=90, kinds=None):
    def gen(rng):
        for i in range(n):
            if i % 11 == 3:
                d = chain(rng.randint(20, 90))
            elif i % 11 == 4:
                d = flat(rng.randint(20, 60))
            else:
                d = doc(rng, rng.randint(1, size), kinds=kinds)
            yield {"op": "travel", "doc": d}
    return gen


def comb(n):
    """A path of n elements with a leaf on either side of every step."""
    e = lambda d, nm="a": {"d": d, "k": "el", "n": cps(nm), "a": [], "t": []}
    return [x for i in range(n) for x in (e(i), e(i + 1, "b"))] + [e(n - i, "c") for i in range(n)]


def roams(wide, deep):
    """Documents wider and deeper than anything with a limit of its own in mind."""
    def gen(rng):
        for n in wide:
            yield {"op": "roam", "doc": flat(n), "from": [1, 2, n + 1, n + 2, 2 * n + 1]}
        for n in deep:
            yield {"op": "roam", "doc": chain(n), "from": [1, 2, n // 2, n - 1, n, n + 1, n + 3]}
            yield {"op": "roam", "doc": comb(n), "from": [1, 2, n, 2 * n - 1, 2 * n, 3 * n]}
        for n in wide[:2]:
            d = doc(rng, n, shape="bursts")
            yield {"op": "roam", "doc": d, "from": sorted({rng.randint(1, len(d)) for _ in range(30)})}
    return gen


def large_queries(wide, deep, per=4):
    def gen(rng):
        for d in [flat(n) for n in wide] + [chain(n) for n in deep] + [comb(n) for n in deep] + [doc(rng, n, shape="bursts") for n in wide]:
            yield {"op": "query", "doc": d, "suite": [[]] + [query(rng) for _ in range(per)]}
    return gen


def bulky(rng, sizes):
    """A document whose nodes carry a lot: many attributes, long names, values and texts."""
    long = lambda k: "".join(rng.choice("ab-\u00e9x1") for _ in range(k))
    out = []
    for k in sizes:
        a = {f"a{i:05}": str(i % 7) for i in range(k)}
        a[long(k)] = long(k)
        a["class"] = " ".join(f"c{i}" for i in range(k))
        top = out[-1]["d"] + 1 if out and out[-1]["k"] == "el" else (out[-1]["d"] if out else 0)
        out.append({"d": rng.randint(0, top), "k": rng.choice(["el", "el", "void"]), "n": cps("n" * k), "a": [[cps(x), cps(y)] for x, y in sorted(a.items())], "t": []})
        top = out[-1]["d"] + 1 if out[-1]["k"] == "el" else out[-1]["d"]
        out.append({"d": rng.randint(0, top), "k": rng.choice(["text", "text", "comment"]), "n": [], "a": [], "t": cps(long(k))})
    return out


def texts(n, deep=False):
    """n text nodes, one below another's parent or all below one."""
    e = lambda d, k, t="", nm="": {"d": d, "k": k, "n": cps(nm), "a": [], "t": cps(t)}
    if deep:
        return [x for i in range(n) for x in (e(i, "el", nm="a"), e(i + 1, "text", f"t{i}"))] + [e(n, "comment", "c"), e(0, "text", "last")]
    return [e(0, "el", nm="a")] + [x for i in range(n) for x in (e(1, "text", f"t{i}"), e(1, "el", nm="b"))] + [e(0, "text", "last")]


SIZES = [1, 2, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]


def bulk_queries(n):
    def gen(rng):
        for i in range(n):
            ks = rng.sample(SIZES, 3)
            d = bulky(rng, ks)
            k = rng.choice(ks)
            x = rng.choice([x for x in d if x["a"]])
            own = lambda: rng.choice(x["a"])
            P = lambda v: {"t": rng.choice(["str", "string", "cow", "user"]), "v": v, "m": ""}
            RE = lambda v, m: {"t": "re", "v": v, "m": m}
            suite = [[{"o": "tag", "p": P(x["n"]), "v": YES}], [{"o": "tag", "p": P(x["n"][:-1]), "v": YES}], [{"o": "tag", "p": P(x["n"] + cps("n")), "v": YES}]]
            for q in [own() for _ in range(4)] + [x["a"][0], x["a"][-1]]:
                suite += [[{"o": "attr", "p": P(q[0]), "v": P(q[1])}], [{"o": "attr_name", "p": P(q[0]), "v": YES}], [{"o": "attr_value", "p": YES, "v": P(q[1])}],
                          [{"o": "attr", "p": RE(q[0][:6], "pre"), "v": P(q[1])}], [{"o": "attr", "p": P(q[0]), "v": P(q[1] + cps("x"))}],
                          [{"o": "attr", "p": P(q[0]), "v": RE(q[1][-3:], "suf")}]]
            suite += [[{"o": "class", "p": P(v), "v": YES}] for v in ([q[1] for q in x["a"] if q[0] == cps("class")] + [cps("c1"), cps("c0 c1")])]
            yield {"op": "query", "doc": d, "suite": suite}
    return gen


def large_accesses(sizes):
    def gen(rng):
        for k in sizes:
            for d in (texts(k), texts(k, deep=True), flat(k), chain(k), doc(rng, k, shape="bursts")):
                m = len(d)
                yield {"op": "access", "doc": d, "from": sorted({1, 2, m // 2, m - 1, m}), "probes": [cps("x"), cps("class"), cps("")]}
        for k in SIZES + [1000]:
            d = bulky(rng, [k, 3])
            yield {"op": "access", "doc": d, "from": list(range(1, len(d) + 1)), "probes": [q[0] for x in d for q in (x["a"][:2] + x["a"][-3:])] + [cps("a00000x"), cps("class ")]}
    return gen


def programs(n, wide, deep, size=80):
    """Programs of consuming calls, on documents of all sizes."""
    D = ["whole", "strict", "recursive", "iter", "loop", "tag", "tagstrict", "stricttag", "attr"]

    def op(rng, m, last):
        k = rng.choice([0, 1, 2, 3, 7, m // 10, m // 3, m - 1, m, m + 1, rng.randint(0, m + 2)])
        o = rng.choice(["count", "last", "collect", "fold", "each", "chain", "max", "min", "halves", "skip", "stepall"] if last else
                       ["next", "hint", "nth", "nth", "hop", "take", "step", "find", "place", "any", "until"])
        if o in ("step", "stepall"):
            k = max(k, 1)
        return {"o": o, "k": k if o not in ("find", "place", "any", "until") else rng.randint(0, 5), "m": rng.choice([0, 1, 2, 5, m // 4]) if o == "step" else 0}

    def gen(rng):
        docs = [chain(k) for k in deep] + [flat(k) for k in wide] + [comb(k) for k in deep[:2]]
        for i in range(n):
            d = docs[i % len(docs)] if i < 3 * len(docs) else doc(rng, rng.randint(1, size))
            m = len(d)
            yield {"op": "consume", "doc": d, "steps": [op(rng, m, False) for _ in range(rng.randint(0, 6))] + [op(rng, m, True)] * rng.choice([0, 1, 1]),
                   "sources": [{"s": s, "n": 0} for s in rng.sample(D, 4)] + [{"s": s, "n": rng.choice([1, rng.randint(1, m)])} for s in ("desc", "kids", "each")]}
    return gen


def accesses(n, size=60, kinds=None):
    def gen(rng):
        for _ in range(n):
            yield {"op": "access", "doc": doc(rng, rng.randint(1, size), kinds=kinds),
                   "probes": [cps(p) for p in ATTRS + ["", "z", "x "]]}
    return gen


def tree(rng, depth):
    if depth == 0 or rng.random() < .2:
        r = rng.random()
        if r < .1:
            return {"o": "true"}
        if r < .4:
            return {"o": "tag", "p": pat(rng, NAMES)}
        return {"o": "attr", "p": pat(rng, ATTRS), "v": pat(rng, VALUES)}
    return {"o": rng.choice(["and", "or"]), "l": tree(rng, depth - 1), "r": tree(rng, depth - 1)}


def filters(n, size=40, per=12):
    def gen(rng):
        for _ in range(n):
            yield {"op": "filters", "doc": doc(rng, rng.randint(1, size)), "suite": [tree(rng, rng.randint(1, 5)) for _ in range(per)]}
    return gen


def sessions(n, steps=120, size=25, stirs=False, deep=0):
    """Long random histories; what is possible is tracked just enough to write valid scripts."""
    OP = lambda o, h, m="", f=None: {"o": o, "h": h, "m": m, "f": f or {"o": "strict", "p": YES, "v": YES}}

    def gen(rng):
        for k in range(n):
            d = doc(rng, rng.randint(1, size)) if k >= deep else chain([300, 15, 20, 40, 70, 140, 30, 17][k % 8])
            hist, queries, iters, soups = [], [], [], [True]  # queries: None or [document, filters]; iters: None or document
            for step in range(rng.randint(5, steps) if k >= deep else 12):
                ch = [("new", h) for h, s in enumerate(soups) if s]
                lq = [h for h, q in enumerate(queries) if q]
                li = [h for h, x in enumerate(iters) if x is not None]
                ch = [rng.choice(ch)] * (3 if len(lq) < 4 else 1) if ch else []
                if lq:
                    h = rng.choice(lq)
                    ch += [("run", h)] * 3 + [("first", h), ("dropq", h), ("mode", h)]
                    ch += [("copy", h)] * 2 if queries[h][1] == 0 else []
                    ch += [("refine", h)] * 2 if queries[h][1] < 3 else []
                if stirs and rng.random() < .02 and [s for s in soups if s]:
                    hist.append(OP("stir", rng.choice([h for h, s in enumerate(soups) if s]) + 1, rng.choice(["drop", "drop", "panic", "forget"])))
                if (rng.random() < .02 if k >= deep else step in (1, 10)) and [s for s in soups if s]:
                    hist.append(OP("dive", rng.choice([h for h, s in enumerate(soups) if s]) + 1))
                if stirs and rng.random() < .02 and [s for s in soups if s]:
                    hist.append(OP("crowd", rng.choice([h for h, s in enumerate(soups) if s]) + 1, rng.choice("1349")))
                if rng.random() < .03 and len(soups) < 12 and [s for s in soups if s]:
                    hist.append(OP("dup", rng.choice([h for h, s in enumerate(soups) if s]) + 1))
                    soups.append(True)
                if li:
                    if rng.random() < .1:
                        hist.append(OP("hop", rng.choice(li) + 1, str(rng.choice([0, 1, 2, 9]))))
                    ch += [("next", rng.choice(li)) for _ in range(14)] + [("sub", rng.choice(li)) for _ in range(2)]
                    ch += [("dropi", rng.choice(li))]
                free = [h for h, s in enumerate(soups) if s and not any(q and q[0] == h for q in queries) and h not in iters]
                if len(soups) > 1 and free:
                    ch += [("drops", rng.choice(free))]
                if not ch:
                    break
                o, h = rng.choice(ch)
                if o == "new":
                    hist.append(OP(o, h + 1, rng.choice(["whole", "strict", "recursive"])))
                    queries.append([h, 0])
                elif o == "copy":
                    hist.append(OP(o, h + 1))
                    queries.append(list(queries[h]))
                elif o == "mode":
                    hist.append(OP("refine", h + 1, f=mode(rng)))
                elif o == "refine":
                    hist.append(OP(o, h + 1, f=fop(rng)))
                    queries[h][1] += 1
                else:
                    hist.append(OP(o, h + 1))
                    if o == "run":
                        iters.append(queries[h][0])
                    if o in ("run", "first", "dropq"):
                        queries[h] = None
                    elif o == "sub":
                        soups.append(True)
                    elif o == "dropi":
                        iters[h] = None
                    elif o == "drops":
                        soups[h] = False
            yield {"op": "session", "doc": d, "steps": hist}
    return gen


def threads(n, size=60, per=10):
    def gen(rng):
        for _ in range(n):
            yield {"op": "threads", "doc": doc(rng, rng.randint(1, size)),
                   "suite": [query(rng) for _ in range(per)] + [[{"o": "recursive", "p": YES, "v": YES}], [{"o": "strict", "p": YES, "v": YES}]]}
    return gen


XMLS = ["<a/>", "<a><b x='1'>t</b><!--c--><![CDATA[d]]><?p q?></a>", "<?xml version='1.0'?><r>&lt;&#65;</r>", "<p:a xmlns:p='u' p:x='1'/>",
        "<!DOCTYPE a><a>  </a>", "<a><b></a></b>", "<a", "", "<a>&nope;</a>", "text", "<a/><b/>", "<a x='1' x='2'/>", "\ufeff<a/>",
        "<r><i n='1'>one</i><i n='2'>two</i></r>", "<a b=c/>", "<\u00e9 \u65e5='\U0001f600'>\u2003</\u00e9>"]


def constructors(n):
    """Sources of every format, sound and damaged, for all ways of building a document."""
    import gen_strict as gs

    def damage(rng, s):
        if not s:
            return s
        i = rng.randrange(len(s))
        return rng.choice([s[:i], s[:i] + s[i + 1:], s[:i] + rng.choice("<>&/='\" a!-") + s[i:], s[i:]])

    def gen(rng):
        html = [r["src"] for r in gs.docs("mixed", n, .4)(rng)]
        for k in range(n):
            f = ("strict", "lenient", "xml")[k % 3]
            src = "".join(map(chr, html[k]))
            if f == "xml":
                src = "".join(rng.choice(XMLS) for _ in range(rng.choice([1, 1, 1, 2])))
                if rng.random() < .3:
                    src = damage(rng, src)
                b = list(src.encode("utf-8", "surrogatepass"))
                if rng.random() < .1:
                    b.insert(rng.randint(0, len(b)), rng.choice([0xff, 0x80, 0xc3, 0]))
                yield {"op": "constructors", "fmt": f, "bytes": b}
            else:
                yield {"op": "constructors", "fmt": f, "src": cps(src)}
    return gen


def sources(fmt, s):
    return {"op": "constructors", "fmt": fmt, **({"bytes": list(s.encode("utf-8"))} if fmt == "xml" else {"src": cps(s)})}


def edge_constructors():
    """Every kind of character before, after and inside otherwise ordinary sources."""
    odd = ["\ufeff", "\ufeff\ufeff", "\0", "\r", "\r\n", "\n", "\t", " ", "\x0b", "\x0c", "\x1a", "\x7f", "\x85", "\xa0", "\u2028", "\u200b", "\ufffd", "\ufffe", "\U0001f600", "\u0301",
           "<!doctype html>", "<!--c-->", "<?xml version='1.0'?>", "&", ";", "<", ">", "#!", "//", "x", "\ue000"]
    bodies = ["<a>t</a>", "<a k='1'/>", "", "t", "<p>one</p><p>two</p>", "<a", "</a>"]

    def gen(rng):
        for fmt in ("strict", "lenient", "xml"):
            for b in bodies:
                for o in odd:
                    for s in (o + b, b + o, o + b + o, b.replace("t", o), b.replace("1", o), b.replace(">", o + ">")):
                        yield sources(fmt, s)
        # other encodings, and bytes that are none
        for b in bodies:
            for e in ("utf-16-le", "utf-16-be", "utf-16", "utf-32", "latin-1"):
                yield {"op": "constructors", "fmt": "xml", "bytes": list(("\xe9" + b + "\xe9").encode(e))}
                yield {"op": "constructors", "fmt": "xml", "bytes": list(b.encode(e))}
    return gen


def giant_constructors(sizes):
    one = lambda s: {"t": cps(s), "n": 1}
    run = lambda s, n: {"t": cps(s), "n": n}

    def gen(rng):
        for fmt in ("strict", "lenient", "xml"):
            for n, m in sizes.items():
                for src in ([one("<e>"), run("x", n), one("</e>"), one("</f>")], [one("<e>"), run("<f>t</f>", n // 4), one("</e>")], [run("\n", n), one("<e/>")], [one("<e/>"), run(" ", n)],
                            [one("<e>"), run("x", n), one("</e")], [one("<e>"), run("x", n), one("</e>")], [one("<e k='"), run("\u00e9", n), one("'/>")])[:m]:
                    yield {"op": "constructors", "fmt": fmt, "rle": src}
    return gen


def formats(n, size=40, per=8):
    """Larger documents every format can express, spelled out as HTML and as XML."""
    names = ["div", "span", "section", "x-y", "my-tag", "em", "ul"]
    voids = ["br", "hr", "img", "input", "wbr", "embed"]
    attrs = ["x", "y", "class", "id", "data-a", "title", "a1"]
    values = [v for v in VALUES if "\n" not in v] + ["", "a&b", "<", ">", "it's", '"q"', "&amp;", "  two  spaces ", "=", "/", "/>", "]]>", "\U0001f600", "-", "&#65;", "x=1;y=2"]
    texts = ["t", " t ", "a&b", "<b>", "]]>", "\"'", "one\ntwo", "&copy;", "-->", "日本", "é", "a  b", "&", "x;", "&#x41;", "\U0001f600", "\u00a0", "\u2003\u3000", "\u200b", "\u2028"]
    comments = ["", " c ", "<a>", "&amp;", "- x", "]]>", "a\nb", "<?x?>", "é", "- - x"]

    def esc(rng, t):
        out = []
        for c in t:
            if c in "&<>\"'":
                nm = {"&": "amp", "<": "lt", ">": "gt", '"': "quot", "'": "apos"}[c]
                out.append(rng.choice([f"&{nm};", f"&#{ord(c)};", f"&#x{ord(c):x};", f"&#x0{ord(c):X};"]))
            else:
                out.append(rng.choice([c] * 12 + [f"&#{ord(c)};"]) if c not in " \n" else c)
        return "".join(out)

    def render(rng, d, fmt):
        out, openels = [], []
        for x in d:
            while len(openels) > x["d"]:
                out.append(f"</{openels.pop()}{rng.choice(['', '', ' ', chr(10)])}>")
            n = "".join(map(chr, x["n"]))
            t = "".join(map(chr, x["t"]))
            if x["k"] in ("el", "void"):
                a = [("".join(map(chr, p)), "".join(map(chr, q))) for p, q in x["a"]]
                rng.shuffle(a)
                s = "<" + n
                for p, q in a:
                    u = rng.choice("\"'")
                    s += rng.choice([" ", "  ", "\n", "\t"]) + p + rng.choice(["=", "=", " = "]) + u + esc(rng, q) + u
                s += rng.choice(["", " ", "\n"])
                if x["k"] == "void":
                    out.append(s + (rng.choice([">", "/>"]) if fmt == "html" else "/>"))
                else:
                    out.append(s + ">")
                    openels.append(n)
            elif x["k"] == "text":
                out.append(esc(rng, t))
            else:
                out.append(f"<!--{t}-->")
        while openels:
            out.append(f"</{openels.pop()}>")
        return "".join(out)

    def one(rng, size):
        d = []
        shape = rng.choice(["random", "deep", "wide"])
        for i in range(size):
            top = d[-1]["d"] + (1 if d[-1]["k"] == "el" else 0) if d else 0
            dep = 0 if not d else max(1, {"random": rng.randint(0, top), "deep": top if rng.random() < .8 else rng.randint(0, top), "wide": min(top, rng.choice([1, 1, 2]))}[shape])
            k = "el" if not d else rng.choice(["el", "el", "el", "void", "text", "comment"])
            x = {"d": dep, "k": k, "n": [], "a": [], "t": []}
            if k == "text":
                j = next((j for j in range(len(d) - 1, -1, -1) if d[j]["d"] <= dep), None)
                if d[j]["k"] == "text" and d[j]["d"] == dep:
                    x["k"] = k = "el"
            if k in ("el", "void"):
                x["n"] = cps(rng.choice(names if k == "el" else voids) if d else rng.choice(["div", "section", "x-y"]))
                a = {rng.choice(attrs): rng.choice(values) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4]))}
                x["a"] = [[cps(p), cps(q)] for p, q in sorted(a.items())]
            elif k == "text":
                x["t"] = cps(rng.choice(texts))
            else:
                x["t"] = cps(rng.choice(comments))
            d.append(x)
        return d

    def q(rng):
        ops = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            o = rng.choice(["tag", "attr", "attr_name", "attr_value", "class"])
            pn, pv = pat(rng, attrs), pat(rng, values)
            ops.append({"o": o, "p": pat(rng, names + voids) if o == "tag" else pv if o == "class" else YES if o == "attr_value" else pn,
                        "v": pv if o in ("attr", "attr_value") else YES})
        if rng.random() < .3:
            ops.insert(rng.randint(0, len(ops)), mode(rng))
        return ops

    def gen(rng):
        for _ in range(n):
            d = one(rng, rng.randint(1, size))
            yield {"op": "formats", "doc": d, "html": cps(render(rng, d, "html")), "xml": cps(render(rng, d, "xml")), "suite": [q(rng) for _ in range(per)]}
    return gen
