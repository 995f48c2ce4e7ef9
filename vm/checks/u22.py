"""Anchors and guides."""
from vm import ufox

BUDGET = (12, 300)
GENS = [dict(focus=("anchors", "mm")), dict(focus=("guides", "guideprops", "mm")),
        dict(focus=("anchors", "guides", "guideprops", "fontguides", "gdef")),
        dict(focus=("fontguides", "guides")), {}]


def color(c):
    return [int(c[i:i + 2], 16) / 255 for i in (1, 3, 5)] + [1.0]


def expected_guides(g, props, mi):
    """[(x, y, angle, name, color)]"""
    out = []
    for d in "hv":
        named = {p["index"] - 1: p for p in (props or {}).get(d, [])}
        for i, per in enumerate((g or {}).get(d, [])):
            s = per[mi]
            p = named.get(i, {})
            a = s["angle"] if d == "h" else 90 - s["angle"]
            out.append((None if d == "h" else s["pos"], s["pos"] if d == "h" else None, a,
                        p.get("name"), p.get("color")))
    return out


def attr(o, k):
    return o.get(k) if isinstance(o, dict) else getattr(o, k, None)


def check_guides(ctx, got, want, at, raw):
    if not ctx.expect(len(got) == len(want), f"{at}: {len(got)} guides, expected {len(want)}",
                      file=raw, got=[repr(g) for g in got], want=want):
        return
    for k, (g, (x, y, a, name, col)) in enumerate(zip(got, want)):
        gx, gy, ga = attr(g, "x"), attr(g, "y"), attr(g, "angle")
        pos = gx if y is None else gy
        other = gy if y is None else gx
        ctx.expect(pos == (x if y is None else y) and (other or 0) == 0,
                   f"{at}: guide {k} is at x={gx} y={gy}, expected x={x} y={y}", file=raw)
        d = abs((ga or 0) - a) % 360
        ctx.expect(min(d, 360 - d) <= 0.00501 and 0 <= (ga or 0) <= 360,
                   f"{at}: guide {k} has angle {ga}, expected {a} modulo 360", file=raw)
        ctx.expect((attr(g, "name") or None) == (name or None),
                   f"{at}: guide {k} is named {attr(g, 'name')!r}, expected {name!r}", file=raw)
        gc = attr(g, "color")
        if col is None:
            ctx.expect(not gc, f"{at}: guide {k} has color {gc}", file=raw)
        else:
            try:
                rgba = [float(c) for c in str(gc).split(",")]
            except ValueError:
                rgba = []
            ctx.expect(len(rgba) == 4 and all(abs(p - q) < 1e-4 for p, q in zip(rgba, color(col))),
                       f"{at}: guide {k} has color {gc}, expected {col}", file=raw)
            ctx.ev("guide colors")
        if name:
            ctx.ev("guide names")
        if a < 0 or a > 90:
            ctx.ev("guides with other angles")


def run(ctx):
    ctx.rule = (
        "every glyph and the font guides of every master of real and generated fonts: anchors "
        "(name, position in the master) and guides (position, angle, name, color) against the source"
    )
    for label, src, v, raw in ufox.sources(ctx, 40, GENS):
        r = ctx.sub("opt", label)
        minimal = r.random() < 0.2
        opts = {"minimal": minimal, "pshints": r.random() < 0.6}
        ok, res = ctx.guard(f"{label}: conversion", ufox.convert, v, **opts,
                            **ufox.spare(r, "base64", "add_kerning_groups", "move_groups"), detail={"file": raw})
        if not ok:
            continue
        _, ufos, _ = res
        for mi in range(src.m):
            u = ufos[mi]
            order = ufox.order(u)
            want = [] if minimal else expected_guides(src.font.get(1294), src.font.get(1296), mi)
            check_guides(ctx, list(u.info.guidelines or []), want, f"{label}: font, master {mi}", raw)
            ctx.ev("font guides", len(want))
            for gi, g in enumerate(src.glyphs):
                at = f"{label}: glyph {gi} ({g.name}), master {mi}"
                ug = u[order[gi]]
                want = [] if minimal else expected_guides(g.s.get("guides"), g.one(2031), mi)
                check_guides(ctx, list(ug.guidelines), want, at, raw)
                ctx.ev("glyph guides", len(want))
                an = (g.one(2018) or {}).get("anchors", [])
                mm = g.one(2029)
                want = []
                for k, a in enumerate(an):
                    x, y = a["x"], a["y"]
                    if mm is not None and k < len(mm):
                        x, y = mm[k]["x"][mi], mm[k]["y"][mi]
                    want.append((a.get("name"), x, y))
                got = [(attr(a, "name"), attr(a, "x"), attr(a, "y")) for a in ug.anchors]
                ctx.equal(got, want, f"{at}: anchors", file=raw)
                ctx.ev("anchors", len(want))
                if mi and want:
                    ctx.ev("anchors of other masters")
                ctx.case((label, ctx.seed, gi, mi), bool(an or g.s.get("guides")))
        if len(ctx.violations) > 10:
            return
    ctx.require(**{"anchors": 150, "anchors of other masters": 50, "glyph guides": 150,
                   "font guides": 20, "guide names": 30, "guide colors": 30,
                   "guides with other angles": 30})
