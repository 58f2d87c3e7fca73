"""Seeded inputs of every kind, for all parsers at once."""
import gen_strict as gs
import gen_xml as gx
import gen_html as gh

MARK = ["<", ">", "/", "=", "'", '"', "&", ";", "#", "!", "-", "?", "[", "]", " ", "\n", "\t", "\0", "a", "b", "x", "<a>", "</a>", "<br>", "<script>", "</script>", "<style", "<!--", "-->",
        "<!doctype", "<![CDATA[", "]]>", "<?xml", "?>", "&amp;", "&#", "&#x", "9999999999;", "&notit;", "<svg>", "<math>", "<table>", "<td>", "<select>", "<template>", "<frameset>", "</p>", "</br>", "<image>",
        "xmlns:a='u'", "a:b", "encoding='x'", "\ufeff", "\u212a", "\u0130", "\u017f", "\U0001f600", "\u0301", "\ud7ff", "\ufffe", "\U0010ffff", "é", "\x85", "\u2028"]


def char(r):
    k = r.random()
    c = r.randrange(128) if k < .5 else r.randrange(0x800) if k < .7 else r.randrange(0x10000) if k < .9 else r.randrange(0x110000)
    return chr(c) if not 0xd800 <= c < 0xe000 else "\ufffd"


def anything(n, size=200):
    def gen(r):
        for i in range(n):
            k = r.random()
            m = r.choice([1, 3, 8, 20, size])
            if k < .3:
                s = "".join(r.choice(MARK) for _ in range(r.randint(0, m)))
            elif k < .4:
                s = "".join(char(r) for _ in range(r.randint(0, m)))
            elif k < .5:
                s = "".join(r.choice(MARK) if r.random() < .5 else char(r) for _ in range(r.randint(0, m)))
            elif k < .75:
                s = gs.G(r, **gs.PROFILES[r.choice(sorted(gs.PROFILES))]).doc()
                for _ in range(r.choice([0, 1, 2, 4])):
                    s = gs.corrupt(r, s)
            elif k < .9:
                s = gx.source(r)
                for _ in range(r.choice([0, 1, 2, 4])):
                    s = gs.corrupt(r, s)
            else:
                b = (gx.source(r) if r.random() < .5 else "".join(r.choice(MARK) for _ in range(r.randint(1, 12)))).encode()
                b = bytearray(b)
                for _ in range(r.choice([1, 1, 2, 5])):
                    i = r.randrange(len(b) + 1)
                    if r.random() < .5:
                        b[i:i] = bytes(r.choice([0, 0x7f, 0x80, 0xbf, 0xc2, 0xe2, 0xed, 0xef, 0xf0, 0xf4, 0xfe, 0xff, r.randrange(256)]) for _ in range(r.choice([1, 1, 2, 4])))
                    else:
                        del b[i:i + r.choice([1, 2, 9])]
                yield {"op": "total", "bytes": list(b)}
                continue
            yield {"op": "total", "src": [ord(c) for c in s]}
        # every piece repeated, on its own and between two others
        for a in MARK:
            yield {"op": "total", "src": [ord(c) for c in a * 300]}
            b, c = r.choice(MARK), r.choice(MARK)
            yield {"op": "total", "src": [ord(x) for x in b + (a + c) * 150 + b]}
    return gen


def deep(levels):
    """Nesting that has to work within the stack every main thread has."""
    def gen(r):
        forms = [("<a>", "</a>"), ("<div class='x' id=y>", "</div>"), ("<span>t", "t</span>"), ("<a><br/>", "</a>")]
        for p in ("strict", "lenient", "xml"):
            for a, b in forms:
                for n in levels:
                    yield {"op": "pattern", "parser": p, "pre": gs.rec("")["src"], "unit": gs.rec(a)["src"], "mid": gs.rec("x")["src"], "close": gs.rec(b)["src"], "post": [], "n": n}
            for a in ("<div>", "<p><b>", "<script>", "<!--", "<table><tr><td>", "<ul><li>"):
                for n in levels:
                    yield {"op": "pattern", "parser": p, "pre": [], "unit": gs.rec(a)["src"], "mid": [], "close": [], "post": [], "n": n}
    return gen
