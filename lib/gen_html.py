"""Seeded random input for the lenient parser: token sequences, and any text at all."""
import itertools


def cps(s):
    return [ord(c) for c in s]


VOID = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"]
ORDINARY = ["span", "x-y", "my-tag", "cite", "abbr", "label", "div", "section", "article", "q", "SPAN", "Div"]
ORDVOID = ["br", "img", "wbr", "embed", "hr", "BR"]
ALL = ("html head body meta link base p div h1 h2 h3 ul ol li dl dd dt pre listing form button b i a em nobr font strong object marquee table caption colgroup "
       "col tbody thead tfoot tr td th select option optgroup input br img hr area param source track wbr svg g math mi foreignobject desc ruby rb rt rp rtc span x-y "
       "address blockquote section frameset frame keygen image embed main").split()
RAW = ["title", "style", "script", "noframes", "noscript", "textarea", "xmp", "iframe", "noembed"]
TEXTS = ["x", " ", "\n", "a b", " y", "z\n", "é", "日本", "\n\n", "\u2003", "\U0001f600", "\t", "\t\t", "\n\t", "  ", "x\ty"]


def tok(t, n="", a=(), c="", sc=False):
    return {"t": t, "n": n, "a": [list(p) for p in a], "c": cps(c), "sc": sc}


def written(x):
    n, c = x["n"], "".join(map(chr, x["c"]))
    at = "".join(f' {p}="{q}"' for p, q in x["a"])
    return {"start": f"<{n}{at}{'/' if x['sc'] else ''}>", "end": f"</{n}>", "raw": f"<{n}{at}>{c}</{n}>", "comment": f"<!--{c}-->", "doctype": f"<!DOCTYPE {c}>", "text": c}[x["t"]]


def attrs(rng):
    names = rng.sample(["class", "id", "x", "data-a", "type", "color", "href", "lang"], rng.choice([0, 0, 0, 1, 1, 2]))
    return [(n, rng.choice(["", "1", "a b", "hidden", "u", " a  b ", "A\n", "\t"])) for n in sorted(names)]


def record(toks, sound=False, written_as=None):
    src = "".join(written(t) for t in (written_as or toks))
    for t in toks:
        t["n"] = t["n"].lower()
    return {"op": "lenient", "src": cps(src), "toks": toks, "sound": sound}


def repairs(n, size=60):
    """Ordinary tags opened and closed in any order."""
    def gen(rng):
        for _ in range(n):
            names = rng.sample(ORDINARY, rng.randint(1, 5))
            toks = []
            for _ in range(rng.randint(1, size)):
                r = rng.random()
                if r < .35:
                    toks.append(tok("start", rng.choice(names), attrs(rng)))
                elif r < .65:
                    toks.append(tok("end", rng.choice(names)))
                elif r < .75:
                    toks.append(tok("start", rng.choice(ORDVOID), attrs(rng)))
                elif r < .92:
                    toks.append(tok("text", c=rng.choice(TEXTS)))
                else:
                    toks.append(tok("comment", c=rng.choice(["", "c", " c ", "é", "<a>"])))
            w = [dict(t) for t in toks]
            yield record(toks, written_as=w)
    return gen


def sound(n, size=60):
    """Sound ordinary markup: the strict and the lenient parser agree."""
    def gen(rng):
        for _ in range(n):
            toks, openels = [], []
            budget = rng.randint(2, size)
            toks.append(tok("start", rng.choice(ORDINARY), attrs(rng)))
            openels.append(toks[-1]["n"])
            last = "start"
            while len(toks) < budget:
                r = rng.random()
                if r < .35 and len(openels) < 30:
                    toks.append(tok("start", rng.choice(ORDINARY), attrs(rng)))
                    openels.append(toks[-1]["n"])
                elif r < .55 and openels:
                    m = openels.pop()
                    toks.append(tok("end", rng.choice([m, m.lower(), m.upper()])))
                elif r < .65:
                    toks.append(tok("start", rng.choice(ORDVOID), attrs(rng), sc=rng.random() < .4))
                elif r < .9 and openels and last != "text":
                    toks.append(tok("text", c=rng.choice(["x", "a b", " y", "z\n", "é", "日本", "t\u2003"])))
                else:
                    toks.append(tok("comment", c=rng.choice(["", "c", " c ", "é", "<a>"])))
                last = toks[-1]["t"]
            while openels:
                toks.append(tok("end", openels.pop()))
            w = [dict(t) for t in toks]
            yield record(toks, sound=True, written_as=w)
    return gen


FLOW = "div section article main header blockquote figure aside nav footer center address fieldset details ul ol menu dl p h1 h2 h3 h6 pre table hr".split()
PHRASE = "b i em strong code u s small span sub sup label button select br img input wbr cite abbr q a nobr x-y object ruby".split()
MODEL = {"ul": ["li"], "ol": ["li"], "menu": ["li"], "dl": ["dt", "dd"], "table": ["caption", "colgroup", "thead", "tbody", "tfoot"], "colgroup": ["col"], "thead": ["tr"], "tbody": ["tr"], "tfoot": ["tr"],
         "tr": ["td", "th"], "select": ["option", "optgroup"], "optgroup": ["option"], "option": [], "ruby": ["rt", "b"]}
GAPPED = {"table", "colgroup", "thead", "tbody", "tfoot", "tr"}
GAPS, WORDS = ["\n", " ", "\n    ", "\t", "  \n", "\r".replace("\r", "\n\n")], ["x", "a b", " y", "z\n", "\u00e9", "\u65e5\u672c", "t\u2003", "\u00a0", "1 < 2".replace(" < ", " - "), "  two  words  "]


def modelled(n, size=80):
    """Sound markup after a content model: lists, tables, headings, forms, formatting, with white space as authors lay it out."""
    def inside(name):
        if name in MODEL:
            return MODEL[name]
        return PHRASE if name in PHRASE and name != "object" or name in ("p", "h1", "h2", "h3", "h6", "pre", "dt", "rt", "caption") else FLOW + PHRASE

    def gen(rng):
        for _ in range(n):
            toks, up, last = [], [], ""
            budget = rng.randint(3, size)
            layout = rng.random() < .5
            while len(toks) < budget or not toks:
                here = inside(up[-1]) if up else FLOW + PHRASE
                r = rng.random()
                if layout and up and last not in ("text", "pre") and r < .35:
                    toks.append(tok("text", c=rng.choice(GAPS)))
                    last = "text"
                elif (r < .6 or not up) and here and len(up) < 25:
                    nm = rng.choice(here)
                    if nm in ("a", "nobr", "button", "form", "select", "label", "p") and nm in up:
                        continue
                    at = attrs(rng) if rng.random() < .5 else []
                    if nm == "input":
                        at = [("type", "text")]
                    w = tok("start", nm, at, sc=nm in VOID and rng.random() < .4)
                    toks.append(w)
                    if nm not in VOID:
                        up.append(nm)
                    last = nm
                elif r < .8 and up:
                    toks.append(tok("end", up.pop()))
                    last = "end"
                elif r < .95 and last != "text" and toks:
                    toks.append(tok("text", c=rng.choice(GAPS if up and up[-1] in GAPPED else GAPS + WORDS if last != "pre" else WORDS)))
                    last = "text"
                elif toks:
                    toks.append(tok("comment", c=rng.choice(["", "c", " c ", "\n"])))
                    last = "comment"
            while up:
                toks.append(tok("end", up.pop()))
            for t in toks:
                if t["n"] and rng.random() < .1:
                    t["n"] = t["n"].upper()
            yield record(toks, sound=True, written_as=[dict(t) for t in toks])
    return gen


def anything(n, size=40):
    """Tags of every kind in any order."""
    def gen(rng):
        for _ in range(n):
            names = rng.sample(ALL, rng.randint(3, 14))
            toks = []
            if rng.random() < .3:
                toks.append(tok("doctype", c="html"))
            for _ in range(rng.randint(1, size)):
                r = rng.random()
                if r < .45:
                    nm = rng.choice(names)
                    toks.append(tok("start", nm, attrs(rng), sc=nm in ("g", "svg", "math", "mi") and rng.random() < .4))
                elif r < .68:
                    toks.append(tok("end", rng.choice(names)))
                elif r < .75:
                    toks.append(tok("raw", rng.choice(RAW), [], rng.choice(["", "x", " ", "\ny", "a b"])))
                elif r < .94:
                    toks.append(tok("text", c=rng.choice(TEXTS)))
                else:
                    toks.append(tok("comment", c=rng.choice(["", "c"])))
            yield record(toks)
    return gen


PIECES = ["<", ">", "/", "=", "\"", "'", "!", "-", "--", " ", "\n", "\t", "a", "b", "&", "&amp;", "&lt", "&#65;", "&#x1F600;", "&nope;", "&notin;", "<a", "</a", "<p>", "</p>", "<b>", "</b>",
          "<br>", "<br/>", "<br x=1>text</br>", "<div class='x y'>", "</div>", "<!--", "-->", "<!DOCTYPE html>", "<!DOCTYPE svg PUBLIC \"p\" 's'>", "<?pi?>", "<![CDATA[x]]>", "<script>", "</script>", "<style>", "</style>",
          "<title>", "</title>", "<textarea>", "</textarea>", "<table>", "<tr>", "<td>", "</table>", "<svg>", "<svg><source/><source>x</source>", "<svg><br2/>", "<svg viewbox='1' xlink:href='u'>",
          "<svg><a href='2' x='3'/>", "<math definitionurl='d'>", "</svg>", "<foreignObject>", "<template>", "</template>", "<template><p>x</template>", "<select>", "<option>", "<img src=x alt>", "<img alt=\"q\" ALT=r>",
          "<input disabled value = 'v'>", "<a href=x&amp;y=1&copy=2>", "<meta charset=utf-8>", "<link rel=x>", "<area>", "<base href=/>", "<col>", "<embed>", "<hr>", "<source>", "<track>", "<wbr>", "<param>", "<keygen>",
          "<frameset>", "<body id=1>", "<html lang=en>", "<plaintext>", "\x00", "\r", "\r\n", "\x0c", "\ufeff", "é", "\U0001f600", "text", "<x-y data-z>", "<a\nb=\n'c'>", "<P CLASS=Q>", "</br>", "</p x=1>", "<svg><image/>", "<svg><link/>", "<svg><col>x",
          "<math><input/>", "<svg><embed>y</embed>", "<svg><wbr><g/></wbr>", "<ruby><rt>x", "<li>", "<dd>", "<nobr>", "<h1>", "<h2>", "<button>", "<form>"]


def texts(n, size=14):
    """Any text: pieces of markup, damaged markup, stray characters."""
    def gen(rng):
        for _ in range(n):
            s = "".join(rng.choice(PIECES) for _ in range(rng.randint(1, size)))
            if rng.random() < .3 and s:
                i = rng.randrange(len(s))
                s = rng.choice([s[:i], s[:i] + s[i + 1:], s[:i] + rng.choice("<>&/='\" a!-;") + s[i:], s[i:]])
            yield {"op": "mirror", "src": cps(s)}
    return gen


def all_pairs(pieces=PIECES):
    def gen(rng):
        for p in pieces:
            yield {"op": "mirror", "src": cps(p)}
        for p, q in itertools.product(pieces, pieces):
            yield {"op": "mirror", "src": cps(p + q)}
    return gen


EVERY = """a abbr acronym address applet area article aside audio b base basefont bdi bdo bgsound big blink blockquote body br button canvas caption center cite code col colgroup command content data datalist
dd del details dfn dialog dir div dl dt element em embed fieldset figcaption figure font footer form frame frameset h1 h2 h3 h4 h5 h6 head header hgroup hr html i iframe image img input ins isindex kbd keygen label
legend li link listing main map mark marquee math menu menuitem meta meter multicol nav nextid nobr noembed noframes noscript object ol optgroup option output p param picture plaintext pre progress q rb rp rt rtc
ruby s samp script search section select shadow slot small source spacer span strike strong style sub summary sup svg table tbody td template textarea tfoot th thead time title tr track tt u ul var video wbr xmp
x-y foreignobject desc mi mo mn ms mtext annotation-xml g path circle lineargradient""".split()
NAMES = """class id style title lang dir href src alt name value type rel media charset content http-equiv action method target for checked selected disabled hidden width height align valign bgcolor color face size
border colspan rowspan data-x aria-label role onclick tabindex xmlns xml:lang xlink:href viewbox preserveaspectratio definitionurl srcset sizes srcdoc async defer x_y a.b @k :k *k""".split()


def vocabulary():
    """Every element with content laid out in every way, every attribute with every kind of value."""
    def gen(rng):
        for n in EVERY:
            for c in ("", "x", " ", "\n", "\n\n", " x ", "\nx\n", "\t<i>y</i>\n", "<!--c-->\n", f"<{n}>z</{n}>\n", "<li>1</li>\n<li>2</li>\n", "<td> </td>\n", "<option> o </option> <b>q</b>"):
                for s in (f"<{n}>{c}</{n}>", f"<p>a\n<{n} k=' v  '>{c}", f"<div>\n<{n}>\n{c}\n</{n}>\n</div>", f"<svg> <{n}> {c}</{n}>\n"):
                    yield {"op": "mirror", "src": cps(s)}
        for a in NAMES:
            for v in ("", " ", "v", " v", "v ", "a  b", "\n", "a\nb", "V", "0", "#", "a;b", "a,b", "true", "&amp;amp;", "\u00a0v\u00a0", "javascript:x", "text/html", "hidden"):
                yield {"op": "mirror", "src": cps(f"<p {a}='{v}'>x</p><input {a}='{v}'><svg {a}='{v}'><circle {a}='{v}'/></svg><a {a.upper()}='{v}'>y</a><math {a}='{v}'><mi>z</mi></math><li {a}='{v}'>")}
    return gen


def strings(alphabet, n):
    def gen(rng):
        for k in range(n + 1):
            for t in itertools.product(alphabet, repeat=k):
                yield {"op": "mirror", "src": cps("".join(t))}
    return gen


def big(n):
    """Long and deep documents."""
    def gen(rng):
        for i in range(n):
            k = rng.randint(50, 300)
            yield {"op": "mirror", "src": cps(rng.choice([
                "<x-y>" * k + "t", "<p>" * k, "<b>" * min(k, 60) + "<p>x", "x" * k * 40, "<br>" * k, "<a " + " ".join(f"a{j}={j}" for j in range(k)) + ">",
                "<ul>" + "<li>x" * k, "<table>" + "<tr><td>1" * k, "<div>" * k + "x" + "</div>" * k]))}
    return gen


def points(quick):
    """Every code point as itself in content of every kind: alone (those treated apart somewhere), and in blocks."""
    apart = [*range(0x180), 0x34f, 0x61c, 0x115f, 0x1680, 0x180e, *range(0x2000, 0x2010), 0x2028, 0x2029, 0x202f, 0x205f, 0x2060, 0x212a, 0x3000, 0xfdd0, 0xfeff, 0xfff9, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff]

    def gen(rng):
        for c in map(chr, apart):
            for s in (c, f"<p>{c}</p>{c}<b>{c}", f"x{c}y<p title='{c}' a={c}b>x{c}", f"<title>{c}</title><!--{c}--><p>x", f"<!doctype {c}><{c}><a{c}b>", f"<p {c}=1 a{c}=2>", f"<script>{c}</script>"):
                yield {"op": "mirror", "src": cps(s)}
        blocks = list(range(0, 0x3400, 64)) + list(range(0x3400, 0x110000, 64 * 97 if quick else 64)) + list(range(0xf900, 0x10400, 64))
        for b in blocks:
            t = "".join(chr(c) for c in range(b, b + 64) if not 0xd800 <= c < 0xe000 and chr(c) not in "<>&'\"")
            if t:
                yield {"op": "mirror", "src": cps(f"<!doctype {t}><p title='{t}' a=\"{t}\">{t}</p>{t}<!--{t}--><script>{t}</script>")}
    return gen


def strict_vocabulary(rec, attrs, xml=False):
    """The same for the strict parser and for XML: elements laid out in every way, or attributes with every value."""
    names = EVERY + [n.upper() for n in EVERY[::7]] + ["item", "b.c", "d_e", "colgroup2", "scripts", "styles", "n0"]
    contents = ["", "x", " ", "\n", " x ", "\nx\n", "\t<i>y</i>\n", "<!--c-->\n", "<li>1</li>\n<li>2</li>\n", "a<b/>\n<b/> c", "1 > 2"]
    values = ["", " ", "v", " v", "v ", "a  b", "\n", "a\nb", "V", "0", "a;b", "a,b", "true", "&amp;amp;", "\u00a0v\u00a0", "javascript:x"]
    void = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"}

    def gen(rng):
        if attrs:
            for a in NAMES:
                if xml and (a[0] in "@:*" or ":" in a or a == "xmlns"):
                    continue
                for b in (a, a.upper()):
                    yield rec("<r>" + "".join(f"<e {b}='{v}'>x</e><f x=\"1\" {b} = \"{v}\" y='2'/>" for v in values) + "</r>")
                    if not xml:
                        yield rec("".join(f"<br {b}='{v}'><input {b}=\"{v}\"/><script {b}='{v}'>y</script>" for v in values) + f"<e {b}></e><e {b}=v></e><e z {b} y></e>")
        else:
            for n in names:
                if n.lower() in void and not xml:
                    yield rec("".join(f"{c}<{n}>{c}<{n}/>" for c in contents))
                elif n.lower() in ("script", "style") and not xml:
                    yield rec("".join(f"{c}<{n}>{c}</{n}>{c}" for c in contents))
                else:
                    yield rec("<r>" + "".join(f"{c}<{n}>{c}</{n}>{c}" for c in contents) + "</r>")
                    yield rec("<r>" + "".join(f"<p>\n<{n} k=' v '>{c}<{n}>{c}</{n}></{n}>\n</p>" for c in contents) + "</r>")
                    if not xml:
                        yield rec("\n".join(f"<{n}>{c}</{n}>" for c in contents))
    return gen
