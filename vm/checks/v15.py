"""Outlines drawn into glyphs are stored, for every master."""
import copy

from vm import fontgen, lib, ufox
from vm.checks.v14 import PointLog, SegmentLog, finish, model

BUDGET = (12, 300)
GENS = [dict(focus=("mm", "outlines", "hints"), nglyphs=4), dict(focus=("mm", "components"), nglyphs=5),
        dict(nglyphs=4, axes=0), dict(focus=("outlines", "hints", "links"), nglyphs=3, axes=0)]


def shape(r):
    """structure of a contour: list of segments, closed"""
    segs = []
    for _ in range(r.choice((1, 2, 2, 3, 4, 6))):
        segs.append(("line",) if r.random() < 0.5 
                    else ("qcurve", r.choice((0, 1, 1, 2, 2, 3))))
    closed = r.random() < 0.8
    kind = r.random()
    if closed and kind < 0.1:
        return [("blob", r.randint(2, 5))], True
    return segs, closed


def c(r):
    k = r.random()
    if k < 0.1:
        return r.choice((0, -32768 // 4, 32767 // 4, 107, 108, -107, -108, 1131, 1132))
    if k < 0.25:
        return r.randint(-1000, 1000) + r.choice((0.25, 0.75, 0.499, 0.501))
    return r.randint(-500, 1500)


def instance(r, segs, closed, distinct):
    """coordinates for the structure; distinct: the last point isn't the first one (pens leave out
    such a point, which must be done for all masters or none)"""
    def p():
        return (c(r), c(r))

    if segs[0][0] == "blob":
        return {"blob": [p() for _ in range(segs[0][1])], "segs": None, "closed": True}
    distinct |= len(segs) == 1 and segs[0] in (("line",), ("qcurve", 0))
    while True:
        x = {"start": p(), "closed": closed, "blob": None,
             "segs": [(s[0], *[p() for _ in range(1 if s[0] == "line" else s[1] + 1)])
                      for s in segs]}
        if not distinct or rp(x["segs"][-1][-1]) != rp(x["start"]):
            break
    if not distinct and r.random() < 0.3:
        x["segs"][-1] = x["segs"][-1][:-1] + (x["start"],)
    return x


def move(x, dx, dy):
    """the contour at another place"""
    def m(p):
        return (p[0] + dx, p[1] + dy)

    return {**x, "start": x.get("start") and m(x["start"]), "blob": x["blob"] and [m(p) for p in x["blob"]],
            "segs": x["segs"] and [(s[0], *map(m, s[1:])) for s in x["segs"]]}


def rp(p):
    return (round(p[0]), round(p[1]))


def mid(a, b):
    return ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)


def expected(cont, rotate):
    """contour in the form of v14.finish()"""
    if cont["blob"]:
        pts = [rp(p) for p in cont["blob"]]
        return ("blob", pts)
    start = rp(cont["start"])
    # a quadratic segment without off-curve points is a line
    segs = [(s[0] if len(s) > 2 else "line", *map(rp, s[1:])) for s in cont["segs"]]
    if cont["closed"] and (segs[-1][0] != "qcurve" and segs[-1][-1] != start
                           or segs[-1][0] == "qcurve" and segs[-1][-1] != start):
        segs.append(("line", start))
    if rotate:
        k = rotate % len(segs)
        start = segs[k - 1][-1] if k else start
        segs = segs[k:] + segs[:k]
    return finish(start, segs, cont["closed"])


def same(got, want):
    if want[0] != "blob":
        return got == want
    # only off-curve points: an on-curve point between the last and the first was added
    start, segs, closed = got
    pts = want[1]
    if len(segs) != 1 or segs[0][0] != "qcurve" or segs[0][-1] != start or not closed:
        return False
    m = mid(pts[-1], pts[0])
    return list(segs[0][1:-1]) == pts and all(abs(a - b) <= 0.5 for a, b in zip(start, m))


def draw_segments(pen, cont):
    if cont["blob"]:
        pen.qCurveTo(*cont["blob"], None)
        pen.closePath()
        return
    pen.moveTo(cont["start"])
    for s in cont["segs"]:
        (pen.lineTo if s[0] == "line" else pen.qCurveTo)(*s[1:])
    (pen.closePath if cont["closed"] else pen.endPath)()


def draw_points(pen, cont, rotate):
    """rotate: number of points by which the start of a closed contour is moved"""
    if cont["blob"]:
        pts = [(p, None) for p in cont["blob"]]
    else:
        pts = [(cont["start"], "move")]
        for s in cont["segs"]:
            pts += [(p, None) for p in s[1:-1]] + [(s[-1], s[0])]
        if cont["closed"]:
            if rp(pts[-1][0]) == rp(pts[0][0]) and len(pts) > 1:
                pts[0] = (pts[0][0], pts.pop()[1])
            else:
                pts[0] = (pts[0][0], "line")
            pts = pts[rotate:] + pts[:rotate]
    pen.beginPath()
    for p, t in pts:
        pen.addPoint(p, t, smooth=False, name=None)
    pen.endPath()
    return pts


def cyc(cont):
    """all points of a closed contour up to rotation: smallest rotation of the segments"""
    if cont[0] == "blob" or not cont[2]:
        return cont
    start, segs, closed = cont
    segs = list(segs)
    if segs[-1][-1] != start:
        segs.append(("line", start))
    # without zero length closing lines
    segs = [s for i, s in enumerate(segs)
            if not (s[0] == "line" and s[1] == (segs[i - 1][-1]))] or segs
    return min(segs[i:] + segs[:i] for i in range(len(segs)))


def body(d):
    d = copy.deepcopy(d)
    for k in ("nodes", "hints", "components"):
        d.pop(k, None)
    return d


def run(ctx):
    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.glyph import VfbGlyph, VfbGlyphMaster

    ctx.rule = (
        "glyphs of generated fonts are cleared and drawn into, master by master in random order, "
        "with segment and point pens, contours beginning anywhere, also repeatedly and after "
        "writing; other glyphs are left alone: geometry of every master in the written file; "
        "masters with other structures are refused without an output"
    )
    n = 0
    while ctx.more(n, 60):
        r = ctx.sub("font", n)
        g, entries, raw = fontgen.gen(r, **dict(r.choice(GENS)))
        n += 1
        src = ufox.Src(entries)
        if not src.glyphs:
            continue
        v = lib.load(raw)
        if r.random() < 0.5:
            v.decompile()
        keys = list(v.keys())
        m = src.m
        drawn = {}
        steps = []
        kept = {}
        refused = False
        add = None
        for step in range(r.choice((1, 2, 3, 4))):
            if r.random() < 0.15 and add is None:
                e = VfbEntry(v, eid=2001)
                new = VfbGlyph(e, v)
                e.data["name"] = "new glyph"
                at = max(i for i, x in enumerate(v.entries) if x.id == 2001)
                v.entries.insert(at, e)
                add = sum(1 for x in v.entries[:at] if x.id == 2001)
                i, gl, key = "new", new, "new glyph"
            else:
                i = r.choice([x for x in drawn if x != "new"] or [0]) if r.random() < 0.5 \
                    and set(drawn) - {"new"} else r.randrange(len(keys))
                key = keys[i]
                gl = v[key]
            shapes = [shape(r) for _ in range(r.choice((0, 1, 1, 2, 3)))]
            bad = m > 1 and r.random() < 0.08 and shapes
            order = list(range(m))
            r.shuffle(order)
            conts = {}
            rot = [r.randrange(6) if r.random() < 0.4 else 0 for _ in shapes]
            use_points = r.random() < 0.5
            victim = r.choice([x for x in range(m) if x]) if bad else None
            again = i in drawn and m > 1 and not bad and r.random() < 0.7
            if again:
                # only into some of the masters, the others keep what was drawn before
                conts, _, shapes, rot, use_points = drawn[i]
                conts = dict(conts)
                order = r.sample(range(1, m), r.randint(1, m - 1))
                ctx.ev("drawn into some masters")
            comps = [dict(name=r.choice(keys), t=[(r.choice((1, 1, 0.5, -1, 0)), 0, 0, r.choice((1, 1, 1, 0, -2)),
                                                    r.randint(-500, 500), r.randint(-500, 500))
                                                   for _ in range(m)])
                     for _ in range(r.choice((0, 0, 0, 1, 2)))]
            had = (src.glyphs[i].comps if i != "new" else []) or []
            if i in drawn:
                had = drawn[i][1]
            if had or again:
                comps = []  # components can't be cleared
            for mi in order:
                s2 = list(shapes)
                if mi == victim:
                    kind = r.randrange(3)
                    if kind == 0:
                        s2.append(([("line",)], True))
                    elif kind == 1:
                        s2[-1] = (s2[-1][0] + [("line",)], s2[-1][1]) \
                            if s2[-1][0][0][0] != "blob" else ([("blob", s2[-1][0][0][1] + 1)], True)
                    else:
                        s2.pop()
                conts[mi] = [instance(r, *s, m > 1) for s in s2]
                # closing points must be the same in all masters
                tgt = gl if i == "new" and mi == 0 else v.getGlyphMaster(key, mi) if i != "new" \
                    else VfbGlyphMaster(new, mi)
                if mi == 0 and i != "new" and r.random() < 0.5:
                    tgt = gl
                if (i, mi) in kept and r.random() < 0.6:
                    tgt = kept[i, mi]  # the object which was drawn into before
                    ctx.ev("kept objects")
                kept[i, mi] = tgt
                pens = r.random() < 0.3
                steps.append((i, mi, use_points, rot, conts[mi]))

                # there is nothing to clear in a new glyph
                fresh = i == "new" and i not in drawn and not bad and r.random() < 0.6
                ctx.ev("masters drawn without clearing", fresh)

                def job(tgt=tgt, mi=mi, pens=pens, fresh=fresh):
                    if not fresh:
                        tgt.clearContours()
                    pen = tgt.getPointPen() if use_points else tgt.getPen()
                    for ci, x in enumerate(conts[mi]):
                        if pens and ci:  # another pen for each contour
                            pen = tgt.getPointPen() if use_points else tgt.getPen()
                        if use_points:
                            draw_points(pen, x, rot[ci] if ci < len(rot) else 0)
                        else:
                            draw_segments(pen, x)
                    for x in comps:
                        pen.addComponent(x["name"], x["t"][mi])

                if i != "new":
                    v[key].decompile()
                ok, _ = ctx.guard(f"gen{n}: drawing glyph {i}, master {mi}", job,
                                  detail={"file": raw, "steps": steps})
                if not ok:
                    return
            if bad:
                refused = True
                break
            drawn[i] = (conts, had or comps, shapes, rot, use_points)
            # what was drawn into the first master can be seen at once
            at = f"gen{n}: glyph {i}"
            for log, fn in ((SegmentLog(), gl.draw), (PointLog(), gl.drawPointsDirect),
                            (PointLog(), gl.drawPoints)):
                ok, _ = ctx.guard(f"{at}: draw", fn, log, detail={"file": raw, "steps": steps})
                if ok:
                    judge(ctx, f"{at}: drawn after drawing", log.contours, conts[0], use_points,
                          raw, steps)
            if r.random() < 0.4:
                ok, _ = ctx.guard(f"{at}: writing", lib.dump, v, detail={"file": raw, "steps": steps})
                if not ok:
                    return
                ctx.ev("written in between")
                if r.random() < 0.5:
                    v.decompile()
                if r.random() < 0.4:
                    # what was drawn before must not come back
                    dx, dy = r.randint(-50, 50), r.randint(-50, 50)
                    gl.entry.decompile()
                    for nd in gl.entry.data["nodes"]:
                        nd["points"] = [[(x + dx, y + dy) for x, y in p] for p in nd["points"]]
                    drawn[i] = ({mi: [move(x, dx, dy) for x in L] for mi, L in conts.items()},
                                *drawn[i][1:])
                    steps.append((i, "moved", dx, dy))
                    ctx.ev("moved after writing")
        if refused:
            try:
                lib.dump(v)
                ctx.violation(f"gen{n}: masters with other structures were accepted", file=raw,
                              steps=steps)
            except Exception:
                ctx.ev("refused")
            ctx.case((n, ctx.seed, "refused"))
            continue
        ok, out = ctx.guard(f"gen{n}: writing", lib.dump, v, detail={"file": raw, "steps": steps})
        if not ok:
            return
        v2 = lib.load(out)
        ok, _ = ctx.guard(f"gen{n}: reading", v2.decompile, detail={"file": raw, "steps": steps})
        if not ok:
            return
        res = [e.data for e in v2.entries if e.id == 2001]
        idx = [i for i in range(len(src.glyphs))]
        if add is not None:
            idx.insert(add, "new")
        if not ctx.expect(len(res) == len(idx), f"gen{n}: {len(res)} glyphs", file=raw):
            return
        for pos, i in enumerate(idx):
            at = f"gen{n}: glyph {i}"
            d = res[pos]
            if i not in drawn:
                x = lib.content_diff(2001, d, src.glyphs[i].s)
                ctx.expect(x is None, f"{at} was changed: {x}", file=raw, steps=steps)
                ctx.ev("untouched glyphs")
                continue
            conts, comps, _, _, use_points = drawn[i]
            for mi in range(m):
                ok, got = ctx.guard(f"{at}: outlines", model, d.get("nodes", []), mi,
                                    detail={"file": raw})
                if ok:
                    judge(ctx, f"{at}, master {mi}", got, conts[mi], use_points, raw, steps)
                if comps and "name" in comps[0]:
                    want = [(keys.index(x["name"]), x["t"][mi][0], x["t"][mi][3], x["t"][mi][4],
                             x["t"][mi][5]) for x in comps]
                    have = [(x["gid"], x["scaleX"][mi], x["scaleY"][mi], x["offsetX"][mi],
                             x["offsetY"][mi]) for x in d.get("components", [])]
                    ctx.equal(have, want, f"{at}, master {mi}: components", file=raw, steps=steps)
                    ctx.ev("components")
            if i != "new":
                a, b = body(d), body(src.glyphs[i].s)
                ctx.expect(lib.content_diff(2001, a, b) is None, f"{at}: other parts were changed: "
                           f"{lib.content_diff(2001, a, b)}", file=raw, steps=steps)
            ctx.case((n, ctx.seed, i), True)
            ctx.ev("drawn glyphs")
        v3 = lib.load(raw)
        v3.decompile()
        orig = [e for e in v3.entries if e.id != 2001]
        now = [e for e in v2.entries if e.id != 2001]
        ctx.equal([e.id for e in now], [e.id for e in orig], f"gen{n}: other entries", file=raw)
        for a, b in zip(now, orig):
            x = lib.content_diff(a.id, a.data, b.data)
            ctx.expect(x is None, f"gen{n}: entry {a.id} was changed: {x}", file=raw, steps=steps)
        if len(ctx.violations) > 10:
            return
    ctx.require(**{"drawn glyphs": 50, "contours": 60, "refused": 1, "components": 5,
                   "written in between": 10, "kept objects": 10, "moved after writing": 5, "masters drawn without clearing": 3, "drawn into some masters": 10, "untouched glyphs": 60})


def judge(ctx, at, got, conts, rotated, raw, steps):
    if not ctx.expect(len(got) == len(conts), f"{at}: {len(got)} contours, expected {len(conts)}",
                      file=raw, steps=steps):
        return
    for ci, (a, x) in enumerate(zip(got, conts)):
        want = expected(x, 0)
        if rotated and x["blob"] is None:
            a, want = cyc(a), cyc(want)
            good = a == want
        else:
            good = same(a, want)
        ctx.expect(good, f"{at}: contour {ci} is {a}, expected {want}", file=raw, steps=steps)
        ctx.ev("contours")
