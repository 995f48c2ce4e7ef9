"""Which glyphs the UFOs have, in which order."""
from vm import ufox

BUDGET = (12, 300)
GENS = [dict(focus=("duplicates",)), dict(focus=("duplicates", "mm"), nglyphs=10),
        dict(focus=("duplicates", "kerning", "components", "tth"), nglyphs=12),
        dict(focus=("duplicates",), nglyphs=3), {}]


def run(ctx):
    ctx.rule = (
        "glyph set and glyph order of every master of real and generated fonts (many with "
        "duplicate names): one glyph per source glyph, in order, with unique names, the first of "
        "a name keeps it, content follows the glyph"
    )
    for label, src, v, raw in ufox.sources(ctx, 60, GENS):
        r = ctx.sub("opt", label)
        ok, res = ctx.guard(f"{label}: conversion", ufox.convert, v, minimal=r.random() < 0.3,
                            pshints=r.random() < 0.5,
                            **ufox.spare(r, "base64", "add_kerning_groups", "move_groups"), detail={"file": raw})
        if not ok:
            continue
        _, ufos, ds = res
        names = [g.name for g in src.glyphs]
        first = None
        for mi, u in enumerate(ufos):
            at = f"{label}: master {mi}"
            order = ufox.order(u)
            if not ctx.expect(len(order) == len(names) and len(set(order)) == len(order)
                              and set(order) == set(u.keys()),
                              f"{at}: glyph order {order}, glyphs {sorted(u.keys())}, source {names}",
                              file=raw):
                break
            if first is None:
                first = order
            ctx.equal(order, first, f"{at}: glyph order isn't that of master 0", file=raw)
            ctx.equal([g.name for g in u], [n for n in u.keys()], f"{at}: names", file=raw)
            seen = set()
            for i, (a, n) in enumerate(zip(order, names)):
                if n not in seen and n not in order[:i]:
                    ctx.expect(a == n, f"{at}: glyph {i} {n!r} was renamed to {a!r}", file=raw)
                else:
                    ctx.expect(a != n and a.startswith(n + "#"),
                               f"{at}: glyph {i}, another {n!r}, is named {a!r}", file=raw)
                    ctx.ev("duplicate names")
                seen.add(n)
                # content that tells the glyphs apart
                g, ug = src.glyphs[i], u[a]
                ctx.expect((ug.width, ug.height) == tuple(g.s["metrics"][mi])
                           and len(ug.components) == len(g.comps)
                           and len(ug.contours) == sum(n["type"] == "move" for n in g.nodes),
                           f"{at}: {a!r} has the content of another glyph", file=raw)
                for c, s in zip(ug.components, g.comps):
                    ctx.expect(c.baseGlyph == order[s["gid"]],
                               f"{at}: {a!r} refers to {c.baseGlyph}, not to glyph {s['gid']}",
                               file=raw)
                ctx.ev("glyphs")
            if u.layers and "public.background" in u.layers:
                ctx.expect(set(u.layers["public.background"].keys()) <= set(order),
                           f"{at}: background glyphs without a glyph", file=raw)
            ctx.case((label, ctx.seed, mi), len(set(names)) < len(names))
        if len(ctx.violations) > 10:
            return
    ctx.require(**{"glyphs": 300, "duplicate names": 30})
