"""Masks, background images, bitmaps, user data and class flags in the UFOs."""
from vm import core, ufox

BUDGET = (12, 300)
GENS = [dict(focus=("mask", "mm", "outlines")), dict(focus=("mask", "image", "bitmaps")),
        dict(focus=("mask", "mm", "hints", "tth")), dict(focus=("customdata", "fontcustom", "classes")),
        dict(focus=("bitmaps", "image", "mm", "fontcustom"))]
BG = "public.background"


def rows_of(bm):
    return bm["data"]


def run(ctx):
    ctx.rule = (
        "every glyph of every master of real and generated fonts with random options: outlines and "
        "metrics of the background layer (mask), background image, bitmaps, user data, and the "
        "font's user data and metrics class flags, against the source"
    )
    for label, src, v, raw in ufox.sources(ctx, 40, GENS):
        r = ctx.sub("opt", label)
        minimal = r.random() < 0.25
        ok, res = ctx.guard(f"{label}: conversion", ufox.convert, v, minimal=minimal,
                            pshints=r.random() < 0.5,
                            **ufox.spare(r, "add_kerning_groups", "move_groups"), detail={"file": raw})
        if not ok:
            continue
        _, ufos, _ = res
        for mi in range(src.m):
            u = ufos[mi]
            at = f"{label}: master {mi}"
            order = ufox.order(u)
            for eid, key in ((2016, "com.fontlab.v5.userData"),
                             (2024, "com.fontlab.v5.metricsClassFlags")):
                want = src.font.get(eid)
                got = u.lib.get(key)
                ctx.expect(ufox.plain(got) == ufox.plain(want), f"{at}: {key} is {got!r}, expected {want!r}",
                           file=raw)
                if want is not None:
                    ctx.ev(key)
            names = [la.name for la in u.layers]
            masks = {}
            for gi, g in enumerate(src.glyphs):
                m = g.one(2009)
                if m and m.get("nodes"):
                    masks[order[gi]] = (gi, g, m)
            if minimal or not masks:
                ctx.expect(BG not in names, f"{at}: unexpected background layer", file=raw)
                masks = {}
            elif ctx.expect(BG in names, f"{at}: no background layer", file=raw):
                ctx.equal(sorted(u.layers[BG].keys()), sorted(masks), f"{at}: background glyphs",
                          file=raw)
            if masks and BG in names:
                for name, (gi, g, m) in masks.items():
                    if name not in u.layers[BG]:
                        continue
                    bg = u.layers[BG][name]
                    ctx.equal(ufox.ufo_contours(bg), ufox.expected_contours(m["nodes"], mi),
                              f"{at}: mask of glyph {gi} ({g.name})", file=raw)
                    per = ([g.one(2011)] if g.one(2011) else []) + list(g.one(2028) or [])
                    want = per[mi] if per else g.s["metrics"][mi]
                    ctx.equal((bg.width, bg.height), tuple(want),
                              f"{at}: metrics of the mask of glyph {gi} ({g.name})", file=raw)
                    ctx.expect(not bg.components, f"{at}: components in a mask", file=raw)
                    ctx.ev("masks")
                    if mi:
                        ctx.ev("masks of other masters")
            for gi, g in enumerate(src.glyphs):
                ug = u[order[gi]]
                ga = f"{at}: glyph {gi} ({g.name})"
                img = g.one(2007)
                got = ug.lib.get("com.fontlab.v5.background")
                if img is None:
                    ctx.expect(got is None, f"{ga}: unexpected background image", file=raw)
                elif ctx.expect(got is not None, f"{ga}: no background image", file=raw):
                    a = core.norm(dict(got))
                    a["bitmap"] = {k: x for k, x in a["bitmap"].items() if k != "preview"}
                    b = core.norm(img)
                    b["bitmap"] = {k: x for k, x in b["bitmap"].items() if k != "preview"}
                    ctx.equal(a, b, f"{ga}: background image", file=raw)
                    ctx.expect("preview" not in got["bitmap"], f"{ga}: preview of the image", file=raw)
                    ctx.ev("background images")
                bms = g.one(2013)
                got = ug.lib.get("com.fontlab.v5.bitmaps")
                if bms is None:
                    ctx.expect(got is None, f"{ga}: unexpected bitmaps", file=raw)
                    continue
                if not ctx.expect(got is not None and len(got) == len(bms),
                                  f"{ga}: bitmaps {core.short(got)}", file=raw):
                    continue
                for k, (a, b) in enumerate(zip(got, bms)):
                    want = {
                        "imageData": list(b["bitmap"]["data"])[::-1], "bitDepth": 1,
                        "horiAdvance": b["adv"][0], "vertAdvance": b["adv"][1],
                        "width": b["size_pixels"][0], "height": b["size_pixels"][1],
                        "horiBearingX": b["origin"][0],
                        "horiBearingY": b["size_pixels"][1] + b["origin"][1],
                        "ppemX": b["ppm"], "ppemY": b["ppm"],
                    }
                    ctx.equal(dict(a), want, f"{ga}: bitmap {k}", file=raw)
                    ctx.ev("bitmaps")
            ctx.case((label, ctx.seed, mi, minimal))
        if len(ctx.violations) > 10:
            return
    ctx.require(**{"masks": 100, "masks of other masters": 40, "background images": 20,
                   "bitmaps": 30, "com.fontlab.v5.userData": 10,
                   "com.fontlab.v5.metricsClassFlags": 4})
