"""Seeded generators of strict-HTML source texts.  They decide nothing: what a text means is decided
by the specification alone."""
import json, os
from core import SPEC

VOID = "area base br col embed hr img input link meta source track wbr".split()
RAW = ["script", "style"]
UNI = "é漢字ßΩж\u00a0\u200b\u2003\u2028😀𝔘\u212a\u017f\u0130ﬁ\ufeff\ufffd"
ASCII_TEXT = "abcXYZ019 \n\t.,:;!?'\"=/>-_()[]{}#%@*+~`|\\^$"
NAMED = None


def names_table():
    global NAMED
    if NAMED is None:
        NAMED = sorted(json.load(open(os.path.join(SPEC, "data", "entities.json"))))
    return NAMED


def case(r, s):
    k = r.random()
    if k < .5:
        return s
    if k < .7:
        return s.upper()
    return "".join(c.upper() if r.random() < .5 else c.lower() for c in s)


def ws(r, least=0):
    n = r.choice([0, 0, 1, 1, 2, 5]) if least == 0 else r.choice([1, 1, 1, 2, 5])
    return "".join(r.choice(" \t\n\r") for _ in range(max(n, least)))


class G:
    """profile: weights and ranges; everything has a default."""

    def __init__(self, r, **p):
        self.r = r
        self.p = dict(refs=0.0, attrs=.4, maxattrs=4, text=3, comment=1, doctype=.3, void=1, raw=.5, el=4, selfc=.7,
                      names="plain", spell="mixed", uni=.2, unsorted=.5, longtext=0, blank=.08, page=.15)
        self.p.update(p)

    # ---- pieces -----------------------------------------------------------
    def chars(self, n, pool=ASCII_TEXT, forbid=""):
        r = self.r
        out = []
        for _ in range(n):
            c = r.choice(UNI) if r.random() < self.p["uni"] else r.choice(pool)
            out.append(c if c not in forbid else "x")
        return "".join(out)

    def ref(self):
        r = self.r
        k = r.random()
        if k < .35:
            t = r.choice(["amp;", "lt;", "gt;", "quot;", "apos;", "nbsp;", "copy;", "hellip;", "amp", "lt", "copy"])
        elif k < .6:
            t = r.choice(names_table())
        elif k < .8:
            cp = r.choice([r.randrange(32, 127), r.randrange(160, 0xd800), r.randrange(0xe000, 0x110000), 9, 10, 0xd800, 0x110000, 0x10ffff, 0xfffd])
            z = "0" * r.choice([0, 0, 1, 4])
            t = r.choice(["#%s%d;" % (z, cp), "#x%s%x;" % (z, cp), "#X%s%X;" % (z, cp), "#%d" % cp, "#x%x" % cp])
        else:
            t = r.choice(["", "&", "#", "#;", "#x;", "#xg;", "foo;", "ampx;", "am p;", " ", ";", "#12a;", "#99999999999;",
                          "#x110000;", "#xD800;", "AMP;", "Amp;", "LT", "nosuchname;", "lt", "-", "amp;lt;", "amp;amp;", "#38;lt;", "é;", "amp;#65;", "amp;#x41;", "#38;#65;", "#x26;#38;", "amp;#38;lt;", "amp#60;"])
        return "&" + t

    def content(self, n, forbid):
        out = ""
        while n > 0:
            if self.r.random() < self.p["refs"]:
                t = self.ref()
                if any(c in forbid for c in t):
                    continue
                out += t
                # separate from what follows, mostly
                if self.r.random() < .7:
                    out += self.r.choice([" ", ".", "=", "é", ";"])
                    out = "".join(c for c in out if c not in forbid)
                n -= 3
            else:
                k = self.r.randint(1, max(1, min(n, 8)))
                out += self.chars(k, forbid=forbid + "&")
                n -= k
        return out

    def length(self):
        k = self.r.random()
        return self.r.randint(1, 4) if k < .6 else self.r.randint(5, 30) if k < .95 else self.r.randint(50, 300 + self.p["longtext"])

    def name(self):
        r = self.r
        if self.p["names"] == "plain" and r.random() < .8:
            return case(r, r.choice(["a", "b", "p", "div", "span", "h1", "li", "td", "em"]))
        k = r.random()
        if k < .35:  # look-alikes of void and raw names
            base = r.choice(VOID + RAW)
            n = r.choice([base + r.choice("xs1-_.:"), base + r.choice(VOID + RAW), base[:-1] or "a", base + "-" + base, "x" + base])
        elif k < .5:
            n = r.choice(["my-element", "svg:rect", "a.b", "x_y", "1", "0a", "a-", "a:", "H1.x-y:z_", "data-list", "linkage", "brand", "basefont", "colgroup"])
        else:
            n = r.choice("abcdefgXYZ09") + "".join(r.choice("abcXYZ019-_.:") for _ in range(r.choice([0, 1, 2, 5, 12])))
        n = case(r, n)
        if n.lower() in VOID or n.lower() in RAW:
            n += "x"
        return n

    def attr_name(self):
        r = self.r
        if r.random() < .7:
            return case(r, r.choice(["id", "class", "href", "data-x", "t", "n", "xml:lang", "@click", ":if", "value", "a", "b"]))
        pool = "abXY01-_:.@#$%&*()[]{}|;,?!+~^`\\<"
        return self.chars(r.randint(1, 6), pool, forbid=" \t\r\n\"'>/=\x0c")

    def attr(self, name, value):
        """one spelling of an attribute, with its leading white space"""
        r = self.r
        styles = []
        if '"' not in value:
            styles += ["dq"] * 2
        if "'" not in value:
            styles += ["sq"] * 2
        if value and not any(c in " \t\n\r\x0c\"'=<>`" for c in value):
            styles += ["un"] * 3
        if value == "":
            styles += ["bool"] * 3
        st = r.choice(styles)
        eq = (ws(r), ws(r)) if r.random() < .3 else ("", "")
        if st == "bool":
            return name
        q = {"dq": '"', "sq": "'", "un": ""}[st]
        return name + eq[0] + "=" + eq[1] + q + value + q

    def attrs(self):
        r = self.r
        if r.random() >= self.p["attrs"]:
            return ""
        n = r.choice([1, 1, 2, 3, self.p["maxattrs"]])
        seen, out = set(), ""
        for _ in range(n):
            a = self.attr_name()
            if a in seen:
                continue
            seen.add(a)
            k = r.random()
            if k < .2:
                v = ""
            elif k < .5:
                v = r.choice(["x", "1", "yes", "tnfr", "no/thing", "a-b_c", "http://e.org/?q", "t", "n", "r", "f", "\\"])
            else:
                v = self.content(r.choice([1, 2, 4, 12, 40]), "'" if r.random() < .5 else '"')
            sp = self.attr(a, v)
            # a quoted value may be followed at once by the next name; a name may not
            if out and out[-1] in "\"'" and r.random() < .15:
                out += sp
            else:
                out += ws(r, 1) + sp
        return out

    def end(self, attrs, selfclose):
        """the end of a start tag; an unquoted value would swallow a slash"""
        r = self.r
        safe = attrs == "" or attrs[-1] in "\"'"
        sp = ws(r) if r.random() < .3 else ""
        if selfclose:
            return (sp if safe or sp else " ") + "/>"
        return sp + ">"

    def text(self):
        if self.r.random() < self.p["blank"]:
            return self.r.choice(["\n", " ", "\n  ", "\t", "\r\n", "\n\n", "  \n"])
        return self.content(self.length(), "<")

    def comment(self):
        t = self.content(self.length() if self.r.random() < .8 else 0, "")
        if self.r.random() < .3:
            t += self.r.choice(["<a>", "</a>", "--", "->", "<!--", "&amp;", "-", ">", "<!doctype x>", "</script>"])
            if self.r.random() < .5:
                t = self.r.choice(["-", ">", "--", "x"]) + t
        t = t.replace("-->", "--x")
        while (t + "-->").index("-->") != len(t):
            t = t[:-1]
        return "<!--" + t + "-->"

    def doctype(self):
        r = self.r
        t = r.choice(["html", "", " html ", 'html PUBLIC "-//W3C//DTD" \'x\'', "a<b&amp;", self.chars(6, forbid=">")])
        return "<!" + case(r, "doctype") + " " + t + ">"

    def raw(self):
        r = self.r
        n = case(r, r.choice(RAW))
        a = self.attrs()
        if r.random() < .15:
            return "<" + n + a + self.end(a, True)
        frag = ["if (a < b && c > d)", "</", "<", ">", "</p>", "<p>", "<!--", "-->", "&lt;", "&amp;", "\"", "'", "`", "\n", " ", "/",
                "</scrip>", "</styl", "</ script>", "</ style>", "</scripts>", "</stylex>", "x", "</script", "</style", "</SCRIPT ", "<script>", "<style>",
                "é", "😀", "\u00a0", "\u2028", "\\", "</\u017fcript>", "</s", "scriptx", "]]>", "</scr</scr", "&#65;", "&#x41;", "&copy", "&#", "<![CDATA[", "'", "\r\n", "//", "/*", "{", "}"]
        body = "".join(r.choice(frag) for _ in range(r.choice([0, 1, 2, 4, 9, 30])))
        own = n.lower()
        import re
        while True:  # its own closing tag ends it, so it must not occur inside
            m = re.search(r"</" + own + r"[ \t\r\n]*>", body + "", re.I)
            if not m:
                break
            body = body[:m.start()] + "</" + body[m.start() + 3:]
        # a partial closing tag at the very end would join with what follows; harmless, but then the first match moves
        return "<" + n + a + self.end(a, False) + body + "</" + case(r, own) + ws(r) + ">"

    # ---- documents ----------------------------------------------------------
    def nodes(self, budget, depth):
        """a forest of about `budget` constructs"""
        r, p, out = self.r, self.p, []
        last_text = False
        while budget > 0:
            kinds = ["el", "selfc", "void", "raw", "text", "comment", "doctype"]
            w = [p[k] for k in kinds]
            if last_text:
                w[4] = 0
            if depth <= 0:
                w[0] = 0
            if sum(w) == 0:
                break
            k = r.choices(kinds, w)[0]
            last_text = k == "text"
            budget -= 1
            if k == "el":
                inner = min(budget, r.choice([0, 0, 1, 2, 3, 6, budget]))
                n, a = self.name(), self.attrs()
                out.append("<" + n + a + self.end(a, False) + self.nodes(inner, depth - 1)
                           + "</" + (case(r, n) if r.random() < .3 else n) + (ws(r) if r.random() < .2 else "") + ">")
                budget -= inner
            elif k == "selfc":
                n, a = self.name(), self.attrs()
                out.append("<" + n + a + self.end(a, True))
            elif k == "void":
                n, a = case(r, r.choice(VOID)), self.attrs()
                out.append("<" + n + a + self.end(a, r.random() < .3))
            else:
                out.append(getattr(self, k)())
        return "".join(out)

    def page(self):
        """shaped like a real page: prologue, indentation, nested sections"""
        r = self.r
        gap = lambda: r.choice(["", "\n", "\n", "\n  ", " ", "\r\n\t"])
        out = [gap() if r.random() < .3 else "", self.doctype() if r.random() < .8 else "", gap()]
        if r.random() < .3:
            out += [self.comment(), gap()]

        def section(depth):
            n = self.name()
            body = gap()
            for _ in range(r.choice([0, 1, 2, 3])):
                body += (section(depth - 1) if depth and r.random() < .6 else self.nodes(1, 0)) + gap()
            return "<" + n + self.attrs_end() + body + "</" + n + ">"
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            out += [section(r.randint(0, 5)), gap()]
        if r.random() < .3:
            out += [self.comment(), gap()]
        return "".join(out)

    def attrs_end(self):
        a = self.attrs()
        return a + self.end(a, False)

    def doc(self, size=None, depth=12):
        r = self.r
        if r.random() < self.p["page"]:
            return self.page()
        if size is None:
            size = r.choice([1, 1, 2, 3, 4, 6, 10, 20])
        return self.nodes(size, depth)


def corrupt(r, s):
    """a random local damage"""
    if not s:
        return r.choice(["<", "</a>", "<!--", "&", ">"])
    k = r.random()
    i = r.randrange(len(s) + 1)
    j = min(len(s), i + r.choice([1, 1, 1, 2, 5, 20]))
    special = "<>/=\"'!- \n&ax;#"
    if k < .2:
        return s[:i]
    if k < .4:
        return s[:i] + s[j:]
    if k < .6:
        return s[:i] + "".join(r.choice(special) for _ in range(r.choice([1, 1, 2, 3]))) + s[i:]
    if k < .75:
        return s[:i] + r.choice(special) + s[i + 1:]
    if k < .85:
        return s[:j] + s[i:]
    tok = r.choice(["<a>", "</a>", "</p>", "<br/>", "</br>", "<!--", "-->", "<script>", "</script>", "<!doctype", "<!DOCTYPE x>", "< a>", "</ a>", "<a/ >",
                    "</a b>", "<p", "</", "<", "&lt;", "<?xml?>", "<![CDATA[x]]>", "</div>", "</P>", "<a =b>", "<a b==c>", "<a b='>", "</>", "<>", "\0"])
    return s[:i] + tok + s[i:]


def rec(s, op="strict"):
    return {"op": op, "src": [ord(c) for c in s]}


PROFILES = {
    "structure": dict(attrs=.25, maxattrs=3, uni=.1, page=.4, blank=.25),
    "attrs": dict(attrs=.95, maxattrs=8, raw=.8, comment=.3, doctype=.1, void=2, uni=.2, text=1),
    "refs": dict(refs=.6, attrs=.5, text=6, comment=1, raw=1, doctype=.5),
    "raw": dict(raw=6, attrs=.2, text=2, el=2),
    "names": dict(names="odd", void=4, selfc=2, attrs=.3, raw=1.5, comment=.2, doctype=.1, text=1.5),
    "content": dict(comment=4, doctype=2, text=6, el=2, raw=.2, attrs=.1, uni=.4, longtext=2000, refs=.12),
    "mixed": dict(refs=.15, names="odd", attrs=.4),
}


def docs(profile, n, damaged=0.0, big=2, deep=1):
    """n source texts; the last few are large, wide or deep"""
    def gen(r):
        p = PROFILES[profile]
        for i in range(n):
            g = G(r, **p)
            s = g.doc()
            if r.random() < damaged:
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    s = corrupt(r, s)
            yield rec(s)
        for _ in range(big):
            g = G(r, **p)
            s = g.doc(size=400, depth=30)
            yield rec(s if r.random() >= damaged / 2 else corrupt(r, s))
        for k in range(deep):
            d = r.choice([200, 600])
            names = [G(r, **p).name() for _ in range(3)]
            s = "".join("<%s>" % names[i % 3] for i in range(d)) + "x" + "".join("</%s>" % names[i % 3] for i in reversed(range(d)))
            yield rec(s)
    return gen


def bases(r, n, size=8, profile="mixed", maxlen=160):
    """well-formed base documents for the corruption specification, of limited length"""
    out = ["<!DOCTYPE html><div id=a class='b c'><p>x &amp; y</p><br/><img src=\"u\"></div><!-- c -->",
           "<Script a=1>if (a</b) </scripts></sCript >t<a b/>"]
    while len(out) < n:
        s = G(r, **PROFILES[profile]).doc(size=r.randint(3, size), depth=4)
        if 20 <= len(s) <= maxlen:
            out.append(s)
    return out
