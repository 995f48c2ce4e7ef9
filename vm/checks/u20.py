"""Outlines of the master UFOs."""
from vm import ufox

BUDGET = (12, 300)
GENS = [dict(focus=("outlines",)), dict(focus=("outlines", "mm")), dict(focus=("mask", "mm")),
        dict(focus=("hints", "hintmasks", "tth", "outlines")),
        dict(focus=("components", "outlines", "tth")), {}]


def skeleton(cs):
    return [[t for t, _, _ in c] for c in cs]


def run(ctx):
    ctx.rule = (
        "every glyph of every master of real and generated fonts, converted with random options; "
        "contours (types, smoothness, coordinates, order, start points) against an independent "
        "model of the source outlines, and point compatibility across masters"
    )
    for label, src, v, raw in ufox.sources(ctx, 30, GENS):
        r = ctx.sub("opt", label)
        opts = {"minimal": r.random() < 0.3, "pshints": r.random() < 0.6,
                "base64": r.random() < 0.3}
        ok, res = ctx.guard(f"{label}: conversion", ufox.convert, v, **opts,
                            **ufox.spare(r, "add_kerning_groups", "move_groups"), detail={"file": raw})
        if not ok:
            continue
        _, ufos, _ = res
        if not ctx.expect(len(ufos) >= src.m, f"{label}: {len(ufos)} UFOs for {src.m} masters",
                          file=raw):
            continue
        for gi, g in enumerate(src.glyphs):
            skel = None
            for mi in range(src.m):
                order = ufox.order(ufos[mi])
                name = order[gi] if gi < len(order) else None
                if name not in ufos[mi]:
                    ctx.violation(f"{label}: glyph {gi} ({g.name}) is not in master {mi}", file=raw)
                    continue
                got = ufox.ufo_contours(ufos[mi][name])
                want = ufox.expected_contours(g.nodes, mi)
                ctx.equal(got, want, f"{label}: outlines of glyph {gi} ({g.name}), master {mi}",
                          file=raw)
                if mi == 0:
                    skel = skeleton(got)
                elif skeleton(got) != skel:
                    ctx.violation(f"{label}: glyph {gi} ({g.name}) isn't compatible in master {mi}",
                                  file=raw)
                ctx.case((label, ctx.seed, gi, mi), bool(g.nodes))
                ctx.ev("glyph masters")
                for ks in want:
                    ctx.ev("contours")
                    ctx.ev("start " + str(ks[0][0]))
            if src.m > 1:
                for ks in ufox.split_contours(g.nodes):
                    a, b = g.nodes[ks[0]], g.nodes[ks[-1]]
                    eq = [tuple(p[0]) == tuple(q[0]) for p, q in zip(a["points"], b["points"])]
                    if len(ks) > 1 and any(eq) and not all(eq):
                        ctx.ev("contours which return in some masters only")
            if len(ctx.violations) > 10:
                return
    ctx.require(**{"glyph masters": 300, "contours": 300, "start curve": 10, "start qcurve": 10,
                   "start move": 10, "start line": 10,
                   "contours which return in some masters only": 3})
