"""The designspace document."""
import re
from pathlib import Path

from vm import ufox

BUDGET = (12, 300)
GENS = [dict(focus=("mm", "instances", "mappings", "masternames"), nglyphs=1),
        dict(axes=1, focus=("instances",), nglyphs=1), dict(axes=2, nglyphs=1),
        dict(axes=3, nglyphs=1), dict(axes=4, nglyphs=1), dict(axes=0, nglyphs=1),
        dict(axes=2, without=("mappings", "masternames"), nglyphs=1)]
TAGS = {"Weight": "wght", "Width": "wdth", "Optical Size": "opsz", "Serif": "SERF"}
STEMS = ("font", "My Font-Bold", "a.b", "x_Ü")


def run(ctx):
    ctx.rule = (
        "designspace of real and generated fonts with 0 to 4 axes: axes, mappings, sources with "
        "file name and location, instances and labels, against the source"
    )
    for label, src, v, raw in ufox.sources(ctx, 100, GENS):
        r = ctx.sub("opt", label)
        out = Path(r.choice(("out/", "/nowhere/", "")) + r.choice(STEMS)
                   + r.choice((".ufo", ".ufoz", ".json")))
        ok, res = ctx.guard(f"{label}: conversion", ufox.convert, v, str(out),
                            minimal=r.random() < 0.3,
                            **ufox.spare(r, "pshints", "base64", "add_kerning_groups", "move_groups"), detail={"file": raw})
        if not ok:
            continue
        b, ufos, ds = res
        f = src.font
        ctx.expect(len(ufos) == src.m, f"{label}: {len(ufos)} UFOs for {src.m} masters", file=raw)
        ctx.case((label, ctx.seed), src.naxes > 0)
        if not src.naxes:
            ctx.expect(ds is None, f"{label}: designspace for a font without axes", file=raw)
            ctx.ev("fonts without axes")
            continue
        if not ctx.expect(ds is not None, f"{label}: no designspace", file=raw):
            continue
        names = src.multi[1514]
        got = [(a.name, a.tag) for a in ds.axes]
        ctx.equal(got, [(n, TAGS.get(n, n.upper()[:4])) for n in names], f"{label}: axes", file=raw)
        counts, maps = f.get(1515) or [0] * 4, f.get(1516) or []
        for i, a in enumerate(ds.axes):
            m = maps[10 * i:10 * i + counts[i]]
            ctx.equal([tuple(x) for x in a.map], [(u, round(d * 1000)) for u, d in m],
                      f"{label}: mapping of {a.name}", file=raw)
            us = [u for u, _ in m] or [0, 1000]
            ctx.equal((a.minimum, a.default, a.maximum), (min(us), min(us), max(us)),
                      f"{label}: range of {a.name}", file=raw)
            ctx.ev("axes")
            ctx.ev("mappings", len(m))
        locs = {i: loc for i, loc in src.multi[1505]}
        mnames = [n.strip() for n in src.multi[1504]]
        fam = f.get(1024) or ("Untitled" if f.get(1024) is None else f.get(1027, "Untitled"))
        if ctx.expect(len(ds.sources) == src.m,
                      f"{label}: {len(ds.sources)} sources, {src.m} masters", file=raw):
            for i, s in enumerate(ds.sources):
                at = f"{label}: source {i}"
                loc = s.getFullDesignLocation(ds)
                want = {n: 1000 * locs[i + 1][k] for k, n in enumerate(names)}
                ctx.expect(all(abs(loc.get(n, -1) - w) < 1e-6 for n, w in want.items())
                           and len(loc) == len(want),
                           f"{at}: location {loc}, expected {want}", file=raw)
                ctx.equal(s.filename, out.name if not i else f"{out.stem}-{i}{out.suffix}",
                          f"{at}: file name for {out}", file=raw)
                ctx.equal(s.styleName, f"Master {i}", f"{at}: style name", file=raw)
                ctx.equal(s.familyName, fam, f"{at}: family name", file=raw)
                if i < len(mnames):
                    ctx.equal(s.name, mnames[i], f"{at}: name", file=raw)
                else:
                    ctx.expect(bool(s.name), f"{at}: no name", file=raw)
                ctx.ev("sources")
        if len(mnames) < src.m:
            ctx.ev("fonts without some master names")
        inst = f.get(1254) or []
        if ctx.expect(len(ds.instances) == len(inst),
                      f"{label}: {len(ds.instances)} instances, expected {len(inst)}", file=raw):
            for i, (d, p) in enumerate(zip(ds.instances, inst)):
                want = {n: p["values"][k] for k, n in enumerate(names)}
                ctx.equal(dict(d.userLocation), want, f"{label}: location of instance {i}", file=raw)
                ctx.expect(not d.designLocation, f"{label}: instance {i} has two locations", file=raw)
                ctx.equal((d.familyName, d.styleName), (fam, p["name"]),
                          f"{label}: names of instance {i}", file=raw)
                ctx.equal(d.styleMapFamilyName, f"{fam} {p['name']}".strip(),
                          f"{label}: style map family name of instance {i}", file=raw)
                ctx.equal(d.filename, re.sub("//+", "/", f"instance_ufo/{fam}-{p['name']}.ufo"),
                          f"{label}: file name of instance {i}", file=raw)
                ctx.ev("instances")
            ctx.expect(len({d.name for d in ds.instances}) == len(inst),
                       f"{label}: instances have the same name", file=raw)
        labels = [(a.name, a.userValue) for x in ds.axes for a in x.axisLabels]
        if src.naxes == 1:
            ctx.equal(labels, [(p["name"], p["values"][0]) for p in inst], f"{label}: axis labels",
                      file=raw)
            ctx.ev("axis labels", len(labels))
        if len(ctx.violations) > 10:
            return
    ctx.require(**{"axes": 60, "mappings": 100, "sources": 200, "instances": 60, "axis labels": 10,
                   "fonts without axes": 10, "fonts without some master names": 5})
