"""Hints and links of glyphs are resolved to stems."""
from vm import lib, ufox
from vm.checks.u25 import stem_of

BUDGET = (10, 240)
GENS = [dict(focus=("hints", "hintmasks", "links", "outlines")),
        dict(focus=("hints", "hintmasks", "links", "outlines", "mm")),
        dict(focus=("links", "outlines", "mm")), dict(focus=("hints", "duplicates"), nglyphs=6), {}]


def links_of(g, mi):
    """stems from links by direction; None when they refer to missing nodes"""
    out = {"h": [], "v": []}
    links = g.one(2008) or {"x": [], "y": []}
    nodes = g.nodes
    for axis, k, d in (("x", 0, "v"), ("y", 1, "h")):
        for a, b in links.get(axis, []):
            if not 0 <= a < len(nodes) or b >= len(nodes) or b < -2:
                return None
            p = nodes[a]["points"][mi][0][k]
            if b == -1:
                out[d].append((d + "stem", p + 21, -21))
            elif b == -2:
                out[d].append((d + "stem", p, -20))
            else:
                out[d].append((d + "stem", p, nodes[b]["points"][mi][0][k] - p))
    return out


def hints_of(g, mi):
    out = {"h": [], "v": []}
    for d in "hv":
        for per in (g.s.get("hints") or {}).get(d, []):
            out[d].append(stem_of(per[mi]["pos"], per[mi]["width"], d))
    return out


def sets_of(stems, masks):
    """{node: stems}; None for masks of missing stems"""
    if not masks:
        return {0: stems["h"] + stems["v"]}
    out, at, cur = {}, 0, []
    for d, i in list(masks) + [("r", None)]:
        if d == "r":
            if cur:
                out[at] = cur
            at, cur = i, []
        else:
            if not 0 <= i < len(stems[d]):
                return None
            cur.append(stems[d][i])
    return out


def plain(x):
    return [tuple(t) for t in x]


def run(ctx):
    ctx.rule = (
        "resolve_links, resolve_hints and resolve_hint_sets of every glyph of every master of real "
        "and generated fonts, in random order and repeatedly, against the source"
    )
    for label, src, v, raw in ufox.sources(ctx, 40, GENS):
        r = ctx.sub("res", label)
        if r.random() < 0.3:
            v = lib.load(raw)
        keys = list(v.keys())
        todo = [(i, mi) for i in range(len(keys)) for mi in range(src.m)]
        if len(todo) > 400:
            todo = todo[::2]
        r.shuffle(todo)
        again = r.random() < 0.3
        for n, (i, mi) in enumerate(todo):
            if again and n % 5 == 0:
                # writing compiles the glyphs and links
                ctx.guard(f"{label}: writing", lib.dump, v, detail={"file": raw})
                ctx.ev("written before asking")
            g, gl = src.glyphs[i], v[keys[i]]
            at = f"{label}: glyph {keys[i]!r}, master {mi}"
            L = links_of(g, mi)
            if L is None:
                ctx.ev("links to missing nodes, not judged")
                continue
            H = hints_of(g, mi)
            want = {d: H[d] + L[d] for d in "hv"}
            masks = (g.s.get("hints") or {}).get("hintmasks") or []
            S = sets_of(want, masks)
            jobs = ["links", "hints"] + (["sets"] if S is not None else [])
            jobs = [r.choice(jobs) for _ in range(2)] + jobs
            r.shuffle(jobs)
            gl.master_index = mi
            for j in jobs:
                fn = {"links": gl.resolve_links, "hints": gl.resolve_hints,
                      "sets": gl.resolve_hint_sets}[j]
                ok, got = ctx.guard(f"{at}: {fn.__name__}", fn, detail={"file": raw})
                if not ok:
                    continue
                exp = {"links": L, "hints": want, "sets": S}[j]
                got = {k: plain(x) for k, x in got.items()}
                if j == "sets":
                    # what a negative node number means isn't known
                    got = {abs(k) - 1 if k < 0 else k: x for k, x in got.items()}
                    exp = {abs(k) - 1 if k < 0 else k: x for k, x in exp.items()}
                    exp = {k: x for k, x in exp.items() if x}
                    got = {k: x for k, x in got.items() if x}
                    ctx.ev("hint sets", len(exp))
                    ctx.ev("glyphs with several hint sets", len(exp) > 1)
                ctx.expect(got == exp, f"{at}: {fn.__name__}: {got}, expected {exp}", file=raw)
                ctx.ev("links", sum(map(len, L.values())))
                ctx.ev("hints", sum(map(len, H.values())))
            gl.master_index = 0
            ctx.case((label, ctx.seed, i, mi), any(want.values()))
        for i, k in enumerate(keys):
            v[k].entry.decompile()
            d = v[k].entry.data
            ctx.expect(lib.content_diff(2001, d, src.glyphs[i].s) is None,
                       f"{label}: glyph {k!r} was changed", file=raw)
    ctx.require(**{"links": 100, "hints": 300, "hint sets": 150, "written before asking": 10, "glyphs with several hint sets": 30})
