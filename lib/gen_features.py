"""Inputs for every operation at once, to compare builds with different features."""
import gen_strict as gs
import gen_query as gq
import gen_xml as gx
import gen_html as gh
import gen_total as gt


def uses_regex(x):
    if isinstance(x, dict):
        return x.get("t") == "re" and "v" in x or any(uses_regex(v) for v in x.values())
    return isinstance(x, list) and any(uses_regex(v) for v in x)


def records(n):
    """n of each kind."""
    def gen(rng):
        make = [gs.docs(p, n // 3, .3) for p in ("mixed", "attrs", "refs", "raw")]
        make += [gx.docs("mixed" if "mixed" in gx.PROFILES else sorted(gx.PROFILES)[0], n // 2, .3)]
        make += [gh.texts(n // 2), gh.repairs(n // 4, 20), gt.anything(n // 2, 40)]
        make += [gq.queries(n // 3, 30, 6), gq.pattern_queries(n // 6, 15), gq.travels(n // 10, 20), gq.accesses(n // 6, 20), gq.filters(n // 6, 20, 6),
                 gq.sessions(n // 6, 40, 12), gq.threads(n // 30, 15, 5), gq.formats(n // 6, 15, 5), gq.constructors(n // 6)]
        for m in make:
            for r in m(rng):
                r.pop("sound", None)
                if r["op"] == "total" and len(r.get("src", r.get("bytes"))) > 2000:
                    continue
                if r["op"] in ("query", "filters", "session", "threads", "formats"):
                    # one record with every pattern, one without regular expressions
                    if uses_regex(r):
                        yield dict(r, needs=["regex"])
                        r = dict(r)
                        if "suite" in r:
                            r["suite"] = [q for q in r["suite"] if not uses_regex(q)] or [[]] * 0
                            if r["op"] == "threads":
                                r["suite"] = r["suite"][:]
                            if not r["suite"]:
                                continue
                        else:
                            continue
                if r["op"] == "constructors":
                    r["needs"] = [{"strict": "html-strict", "lenient": "html-lenient", "xml": "xml"}[r["fmt"]]]
                yield r
    return gen
