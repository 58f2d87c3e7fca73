"""Seeded generators of XML source texts.  They decide nothing: what a text means is decided by the
specification alone."""
from gen_strict import rec as _rec

UNI = "é漢字ßΩж\u00a0\u200b\u2003\u2028😀𝔘\ufeff\ufffd\u0085"
TEXT = "abcXYZ019 \n\t.,:;!?'\"=/>-_()[]{}#%@*+~`|\\^$"
NAMES = ["a", "b", "item", "Item", "ns1", "x-y", "_u", "a.b", "é", "漢字", "xml1", "A1", "br", "script", "title", "ǁ", "𐀀x"]
PREFIXES = ["p", "q", "svg", "xs", "a", "é"]
URIS = ["u", "urn:x", "http://e.org/ns", "http://www.w3.org/2000/svg", "U", "u ", "é", "v"]


def ws(r, least=0):
    n = r.choice([0, 0, 1, 2]) if not least else r.choice([1, 1, 1, 2, 4])
    return "".join(r.choice(" \t\n\r") for _ in range(max(n, least)))


class G:
    def __init__(self, r, **p):
        self.r = r
        self.p = dict(text=4, el=4, empty=2, comment=1, cdata=1, pi=1, attrs=.5, maxattrs=4, refs=.1, uni=.15, ns=.2, longtext=0,
                      prolog=.5, doctype=.25)
        self.p.update(p)

    def chars(self, n, forbid=""):
        out = []
        for _ in range(n):
            c = self.r.choice(UNI) if self.r.random() < self.p["uni"] else self.r.choice(TEXT)
            out.append("x" if c in forbid else c)
        return "".join(out)

    def ref(self):
        r = self.r
        if r.random() < .5:
            return "&" + r.choice(["amp", "lt", "gt", "quot", "apos"]) + ";"
        cp = r.choice([9, 10, 13, 32, 38, 60, 62, 93, r.randrange(33, 127), r.randrange(160, 0xd800), r.randrange(0xe000, 0xfffe), r.randrange(0x10000, 0x110000)])
        z = "0" * r.choice([0, 0, 1, 5])
        return r.choice(["&#%s%d;" % (z, cp), "&#x%s%x;" % (z, cp), "&#x%s%X;" % (z, cp)])

    def content(self, n, forbid):
        out = ""
        while n > 0:
            if self.r.random() < self.p["refs"]:
                out += self.ref()
                n -= 3
            else:
                k = self.r.randint(1, max(1, min(n, 9)))
                out += self.chars(k, forbid)
                n -= k
        return out

    def length(self):
        k = self.r.random()
        return self.r.randint(1, 4) if k < .6 else self.r.randint(5, 30) if k < .95 else self.r.randint(50, 300 + self.p["longtext"])

    def text(self):
        r = self.r
        if r.random() < .15:
            return ws(r, 1)
        t = self.content(self.length(), "<&")
        return t.replace("]]>", "]] >")

    def comment(self):
        t = self.content(r_len(self.r), "-") + self.r.choice(["", "", "<a>", "&amp;", "- ", "<![CDATA[x]]>", "<?p?>", "]]>", "\"", "-x"])
        return "<!--" + t.replace("--", "-x") + "-->"

    def cdata(self):
        r = self.r
        t = self.content(r_len(r), "") + r.choice(["", "<a>", "</a>", "&amp;", "]]", "]", "<!--", "-->", "<![CDATA[", "]] >", "&#60;", ">"])
        t = t.replace("]]>", "]]x")
        return "<![CDATA[" + t + "]]>"

    def pi(self):
        r = self.r
        n = r.choice(["p", "php", "xml-stylesheet", "xmlx", "a.b", "_", "xm", "é"])
        if r.random() < .3:
            return "<?" + n + ws(r) + "?>"
        t = self.content(r_len(r), "") + r.choice(["", "?", "<a>", "&amp;", "-->", " ", "??", "href='x'"])
        t = t.replace("?>", "?x")
        return "<?" + n + ws(r, 1) + t + "?>"

    def attrs(self, bound):
        """-> (spelling, prefixes bound inside)"""
        r = self.r
        bound = set(bound)
        out, seen = "", set()
        todo = []
        if r.random() < self.p["ns"]:
            for _ in range(r.choice([1, 1, 2, 3])):
                if r.random() < .35:
                    n = "xmlns"
                    v = r.choice(URIS + [""])
                else:
                    p = r.choice(PREFIXES)
                    n, v = "xmlns:" + p, r.choice(URIS)
                if n not in seen:
                    seen.add(n)
                    todo.append((n, v))
                    if n != "xmlns":
                        bound.add(n[6:])
        if r.random() < self.p["attrs"]:
            for _ in range(r.choice([1, 1, 2, self.p["maxattrs"]])):
                n = r.choice(NAMES + ["id", "class", "href", "n%d" % r.randrange(50)])
                if bound and r.random() < .25:
                    n = r.choice(sorted(bound)) + ":" + n
                elif r.random() < .05:
                    n = "xml:" + r.choice(["lang", "space", "id"])
                if n in seen:
                    continue
                seen.add(n)
                todo.append((n, None))
        r.shuffle(todo)
        for n, v in todo:
            q = r.choice("'\"")
            if v is None:
                v = self.content(r.choice([0, 1, 3, 10, 40]), "<&" + q)
            eq = (ws(r), ws(r)) if r.random() < .2 else ("", "")
            out += ws(r, 1) + n + eq[0] + "=" + eq[1] + q + v + q
        return out, bound

    def element(self, budget, depth, bound):
        r = self.r
        a, inside = self.attrs(bound)
        n = r.choice(NAMES)
        if inside and r.random() < .4:
            n = r.choice(sorted(inside)) + ":" + n
        sp = ws(r) if r.random() < .2 else ""
        if budget <= 0 and r.random() < .5:
            return "<" + n + a + sp + "/>"
        return "<" + n + a + sp + ">" + self.nodes(budget, depth, inside) + "</" + n + (ws(r) if r.random() < .15 else "") + ">"

    def nodes(self, budget, depth, bound):
        r, p, out, last = self.r, self.p, [], ""
        while budget > 0:
            kinds = ["el", "text", "comment", "cdata", "pi"]
            w = [p[k] for k in kinds]
            if last == "text":
                w[1] = 0
            if depth <= 0:
                w[0] = 0
            k = last = r.choices(kinds, w)[0] if sum(w) else "comment"
            budget -= 1
            if k == "el":
                inner = min(budget, r.choice([0, 0, 1, 2, 4, budget]))
                out.append(self.element(inner, depth - 1, bound))
                budget -= inner
            else:
                out.append(getattr(self, k)())
        return "".join(out)

    def misc(self):
        r = self.r
        return "".join(r.choice([self.comment, self.pi, lambda: ws(r, 1)])() for _ in range(r.choice([0, 0, 0, 1, 2])))

    def doc(self, size=None, depth=12):
        r = self.r
        if size is None:
            size = r.choice([1, 1, 2, 3, 4, 6, 10, 20])
        out = ""
        if r.random() < .05:
            out += "\ufeff"
        if r.random() < self.p["prolog"]:
            q = r.choice("'\"")
            out += "<?xml version=" + q + r.choice(["1.0"] * 5 + ["1.1"]) + q
            if r.random() < .4:
                out += ws(r, 1) + "encoding" + ws(r) + "=" + ws(r) + q + r.choice(["UTF-8", "utf-8", "Utf-8"]) + q
            if r.random() < .2:
                out += " standalone='" + r.choice(["yes", "no"]) + "'"
            out += ws(r) + "?>"
        out += self.misc()
        if r.random() < self.p["doctype"]:
            out += "<!DOCTYPE " + r.choice(["a", "item", "html"]) + r.choice(["", " ", " SYSTEM 'u.dtd'", ' PUBLIC "-//W3C//DTD" "u"']) + ">" + self.misc()
        out += self.element(size - 1, depth, set()) + self.misc()
        return out


def r_len(r):
    return r.choice([0, 1, 2, 4, 8, 20])


def corrupt(r, s):
    if not s:
        return "<"
    k = r.random()
    i = r.randrange(len(s) + 1)
    j = min(len(s), i + r.choice([1, 1, 1, 2, 5, 20]))
    special = "<>/=\"'!- \n&ax;#?]["
    if k < .2:
        return s[:i]
    if k < .4:
        return s[:i] + s[j:]
    if k < .6:
        return s[:i] + "".join(r.choice(special) for _ in range(r.choice([1, 1, 2, 3]))) + s[i:]
    if k < .75:
        return s[:i] + r.choice(special) + s[i + 1:]
    if k < .85:
        return s[:j] + s[i:]
    tok = r.choice(["<a>", "</a>", "<a/>", "<!--", "-->", "--", "<?p", "?>", "<?xml version='1.0'?>", "<![CDATA[", "]]>", "<!DOCTYPE a>", "&", "&amp", "&nosuch;",
                    "&#0;", "&#xD800;", "&#x110000;", "&nbsp;", "< a/>", "</ a>", "<a b>", "<a b=c>", "<a b='1' b='2'/>", "<1/>", "<p:z/>", "\0", "\x0b",
                    "\ufffe", "<a b='<'/>", "text", "<a b='1'c='2'/>", "</a", "<a", "<!ELEMENT a ANY>", "&#38;", "&#-1;", "&#x;"])
    return s[:i] + tok + s[i:]


def rec(s, **k):
    return dict(_rec(s, "xml"), **k)


PROFILES = {
    "plain": {},
    "refs": dict(refs=.5, text=6, attrs=.8, comment=.3, pi=.3),
    "ns": dict(ns=.7, attrs=.8, el=6, text=1),
    "content": dict(comment=4, cdata=4, pi=4, text=5, el=2, uni=.35, longtext=2000),
}


def source(r):
    return G(r, **PROFILES[r.choice(sorted(PROFILES))]).doc()


def docs(profile, n, damaged=0.0, big=2, deep=1):
    def gen(r):
        p = PROFILES[profile]
        for _ in range(n):
            s = G(r, **p).doc()
            if r.random() < damaged:
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    s = corrupt(r, s)
            yield rec(s)
        for _ in range(big):
            s = G(r, **p).doc(size=400, depth=30)
            yield rec(s if r.random() >= damaged / 2 else corrupt(r, s))
        for _ in range(deep):
            d = r.choice([200, 600])
            names = [r.choice(NAMES) for _ in range(3)]
            yield rec("".join("<%s>" % names[i % 3] for i in range(d)) + "x" + "".join("</%s>" % names[i % 3] for i in reversed(range(d))))
    return gen


def bases(r, n, size=6, maxlen=160):
    out = ["<?xml version=\"1.0\"?>\n<!DOCTYPE r SYSTEM 'u'><r a='1'><b>x &amp; y</b><!-- c --><![CDATA[<d>]]><?p q?></r> <!--e-->",
           "<p:r xmlns:p='u' p:a=\"b\"><c/>t&#x41;</p:r >"]
    while len(out) < n:
        s = G(r).doc(size=r.randint(2, size), depth=4)
        if 20 <= len(s) <= maxlen:
            out.append(s)
    return out


KINDS = ["Other", "UnexpectedEof", "WouldBlock", "InvalidData", "TimedOut", "BrokenPipe", "ConnectionReset", "InvalidInput"]


def plan(r, n):
    """what a reader of n bytes does: pieces, interruptions, perhaps a failure or an early end"""
    style = r.choice(["one", "small", "mixed", "blocks", "whole"])
    out, pos = [], 0
    stop = n + 1 if r.random() < .4 else r.choice([r.randrange(n + 1), max(0, n - r.choice([1, 1, 2, 3, 8]))])
    how = r.choice(["fail", "fail", "stop"])
    while pos < n and len(out) < 400:
        k = {"one": 1, "small": r.randint(1, 5), "mixed": r.choice([1, 1, 2, 7, 64, 300]), "blocks": r.choice([511, 512, 1024, 4096, 8191, 8192, 8193]), "whole": n}[style]
        k = min(k, n - pos)
        if pos + k >= stop:
            if stop > pos:
                out.append(["data", stop - pos])
            if r.random() < .3:
                out.append(["intr"])
            out.append(["fail", r.choice(KINDS)] if how == "fail" else ["stop"])
            return out
        out.append(["data", k])
        pos += k
        if r.random() < .1:
            out += [["intr"]] * r.choice([1, 1, 2])
    if pos >= n and r.random() < .3:
        out.append(["fail", r.choice(KINDS)])
    return out


def damage_bytes(r, b):
    i = r.randrange(len(b) + 1)
    k = r.random()
    if k < .3:
        return b[:i]
    if k < .6:
        return b[:i] + bytes(r.choice([0x80, 0xbf, 0xc0, 0xc2, 0xe2, 0xed, 0xf0, 0xf4, 0xf8, 0xff]) for _ in range(r.choice([1, 1, 2, 3]))) + b[i:]
    if k < .8:
        return b[:i] + b[i + 1:]
    return b[:i] + bytes([r.randrange(256)]) + b[i + 1:]


def readers(n, damaged=.2, big=3, bigsize=600):
    def gen(r):
        for k in range(n + big):
            p = PROFILES[r.choice(sorted(PROFILES))]
            s = G(r, **p).doc(size=bigsize, depth=20) if k >= n else G(r, **p).doc()
            b = s.encode()
            if r.random() < damaged:
                b = damage_bytes(r, b)
            yield {"op": "reader", "bytes": list(b), "plan": plan(r, len(b))}
    return gen


def bytestrings(n):
    """arbitrary and nearly valid bytes, in one piece"""
    def gen(r):
        for _ in range(n):
            b = G(r, uni=.5).doc(size=r.choice([1, 2, 4])).encode()
            for _ in range(r.choice([1, 1, 2])):
                b = damage_bytes(r, b)
            yield {"op": "reader", "bytes": list(b), "plan": []}
    return gen
