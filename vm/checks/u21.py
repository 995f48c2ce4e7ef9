"""Components, metrics, code points, marks, notes and user data of the glyphs."""
from colorsys import hls_to_rgb

from vm import ufox

BUDGET = (12, 300)
GENS = [dict(focus=("components", "mm")), dict(focus=("components", "unicodes", "mark")),
        dict(focus=("note", "customdata", "mark", "unicodes")),
        dict(focus=("duplicates", "components", "unicodes", "note", "mark")), {}]


def number(x):
    x = round(x, 15)
    return int(x) if float(x).is_integer() else x


def run(ctx):
    ctx.rule = (
        "every glyph of every master of real and generated fonts, converted with random options: "
        "components (glyph, scale, offset), advance width and height, code points, mark color, "
        "note and user data, against the source"
    )
    for label, src, v, raw in ufox.sources(ctx, 40, GENS):
        r = ctx.sub("opt", label)
        minimal = r.random() < 0.3
        opts = {"minimal": minimal, "pshints": r.random() < 0.6, "base64": r.random() < 0.3}
        ok, res = ctx.guard(f"{label}: conversion", ufox.convert, v, **opts,
                            **ufox.spare(r, "add_kerning_groups", "move_groups"), detail={"file": raw})
        if not ok:
            continue
        _, ufos, _ = res
        for mi in range(src.m):
            u = ufos[mi]
            order = ufox.order(u)
            for gi, g in enumerate(src.glyphs):
                at = f"{label}: glyph {gi} ({g.name}), master {mi}"
                if gi >= len(order) or order[gi] not in u:
                    ctx.violation(f"{at}: missing", file=raw)
                    continue
                ug = u[order[gi]]
                want = [(order[c["gid"]], (c["scaleX"][mi], 0, 0, c["scaleY"][mi],
                                           c["offsetX"][mi], c["offsetY"][mi])) for c in g.comps]
                got = [(c.baseGlyph, tuple(c.transformation)) for c in ug.components]
                same = len(got) == len(want) and all(
                    a[0] == b[0] and all(abs(x - y) <= 1e-12 for x, y in zip(a[1], b[1]))
                    for a, b in zip(got, want))
                ctx.expect(same, f"{at}: components {got}, expected {want}", file=raw)
                ctx.equal((ug.width, ug.height), tuple(g.s["metrics"][mi]), f"{at}: metrics",
                          file=raw)
                uni = [x for d in g.ex[1250] + g.ex[1253] for x in d]
                ctx.equal(list(ug.unicodes), uni, f"{at}: code points", file=raw)
                mark = g.one(2012)
                if mark is not None and mark != 0:
                    col = ug.lib.get("public.markColor", "")
                    try:
                        rgba = [float(x) for x in col.split(",")]
                    except ValueError:
                        rgba = []
                    wc = [*hls_to_rgb(mark / 255, 0.8, 0.76), 1.0]
                    ctx.expect(len(rgba) == 4 and all(abs(a - b) < 1e-4 for a, b in zip(rgba, wc)),
                               f"{at}: mark {mark} has color {col!r}, expected {wc}", file=raw)
                    ctx.ev("marks")
                elif mark is None:
                    ctx.expect("public.markColor" not in ug.lib, f"{at}: mark of an unmarked glyph",
                               file=raw)
                note = g.one(2017)
                if minimal:
                    ctx.expect(not ug.note, f"{at}: note in a minimal UFO", file=raw)
                else:
                    ctx.expect((ug.note or "") == (note or ""),
                               f"{at}: note {ug.note!r}, expected {note!r}", file=raw)
                data = g.one(2015)
                if data is None:
                    ctx.expect("com.fontlab.v5.userData" not in ug.lib,
                               f"{at}: user data of another glyph", file=raw)
                else:
                    ctx.equal(ug.lib.get("com.fontlab.v5.userData"), data, f"{at}: user data",
                              file=raw)
                    ctx.ev("user data")
                ctx.case((label, ctx.seed, gi, mi))
                ctx.ev("glyph masters")
                ctx.ev("components", len(want))
                ctx.ev("code points", len(uni))
                if note and not minimal:
                    ctx.ev("notes")
                if any(c["gid"] > gi for c in g.comps):
                    ctx.ev("forward references")
                if order[gi] != g.name:
                    ctx.ev("renamed glyphs")
        if len(ctx.violations) > 10:
            return
    ctx.require(**{"glyph masters": 300, "components": 100, "code points": 200, "marks": 30,
                   "notes": 30, "user data": 20, "forward references": 5, "renamed glyphs": 3})
