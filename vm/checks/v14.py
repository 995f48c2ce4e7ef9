"""Glyphs draw what they store."""
from vm import lib, ufox

BUDGET = (12, 300)
GENS = [dict(focus=("outlines",), nglyphs=6), dict(focus=("outlines", "mm"), nglyphs=6),
        dict(focus=("outlines", "components", "mm"), nglyphs=8),
        dict(focus=("components", "duplicates"), nglyphs=8), {}]


def finish(start, segs, closed):
    """[start, segments, closed] without closing lines"""
    segs = list(segs)
    if closed and segs and segs[-1] == ("line", start) and len(segs) > 1:
        segs.pop()
    # a line to the same point at the end of a closed contour is nothing
    while closed and len(segs) > 1 and segs[-1][0] == "line" and segs[-1][1] == start:
        segs.pop()
    return (start, segs, closed if segs else None)


def model(nodes, mi):
    """The stored contours; None for contours with both kinds of curves in one segment"""
    out = []
    for ks in ufox.split_contours(nodes):
        ns = [nodes[k] for k in ks]
        start = tuple(ns[0]["points"][mi][0])
        closed = not ns[0]["flags"] & 8
        segs, off = [], []
        for n in ns[1:]:
            p = [tuple(q) for q in n["points"][mi]]
            if n["type"] == "qcurve":
                off.append(p[0])
            elif n["type"] == "line":
                segs.append(("qcurve", *off, p[0]) if off else ("line", p[0]))
                off = []
            elif off:
                segs = None
                break
            else:
                segs.append(("curve", p[1], p[2], p[0]))
        if segs is None or (off and not closed):
            out.append(None)
            continue
        if off:
            segs.append(("qcurve", *off, start))
        out.append(finish(start, segs, closed))
    return out


def from_points(points):
    """contour of [(type, point)]"""
    if points[0][0] == "move":
        start, rest, closed = points[0][1], points[1:], False
    else:
        k = next((i for i, q in enumerate(points) if q[0]), None)
        if k is None:
            return None
        points = points[k:] + points[:k]
        start, rest, closed = points[0][1], points[1:] + [points[0]], True
    segs, off = [], []
    for t, p in rest:
        if t is None:
            off.append(p)
        elif t == "curve":
            segs.append(("curve", *off, p))
            off = []
        elif t == "qcurve":
            segs.append(("qcurve", *off, p) if off else ("line", p))
            off = []
        else:
            if off:
                return "off-curve points before a line"
            segs.append(("line", p))
    if off:
        return "off-curve points at the end"
    return finish(start, segs, closed)


class PointLog:
    def __init__(self):
        self.contours, self.comps, self.cur, self.errors = [], [], None, []

    def beginPath(self, identifier=None, **kw):
        if self.cur is not None:
            self.errors.append("beginPath in a path")
        self.cur = []

    def addPoint(self, pt, segmentType=None, smooth=False, name=None, identifier=None, **kw):
        if self.cur and segmentType == "move":
            self.errors.append("move inside of a path")
        self.cur.append((segmentType, tuple(pt)))

    def endPath(self):
        self.contours.append(from_points(self.cur) if self.cur else "empty path")
        self.cur = None

    def addComponent(self, name, t, identifier=None, **kw):
        self.comps.append((name, tuple(t)))


class SegmentLog:
    def __init__(self):
        self.contours, self.comps, self.cur, self.errors = [], [], None, []

    def moveTo(self, p):
        if self.cur is not None:
            self.errors.append("moveTo in a path")
        self.start, self.cur = tuple(p), []

    def lineTo(self, p):
        self.cur.append(("line", tuple(p)))

    def curveTo(self, *p):
        self.cur.append(("curve", *map(tuple, p)))

    def qCurveTo(self, *p):
        self.cur.append(("qcurve", *map(tuple, p)))

    def closePath(self):
        self.contours.append(finish(self.start, self.cur, True))
        self.cur = None

    def endPath(self):
        self.contours.append(finish(self.start, self.cur, False))
        self.cur = None

    def addComponent(self, name, t):
        self.comps.append((name, tuple(t)))


def judge(ctx, at, log, want, comps, raw):
    ctx.expect(not log.errors and log.cur is None, f"{at}: {log.errors} {log.cur}", file=raw)
    if ctx.expect(len(log.contours) == len(want), f"{at}: {len(log.contours)} contours, expected "
                  f"{len(want)}", file=raw):
        for i, (a, b) in enumerate(zip(log.contours, want)):
            if b is None:
                continue
            # how a single point is closed can't be seen
            ctx.expect(a == b, f"{at}: contour {i} is {a}, expected {b}", file=raw)
            ctx.ev("contours")
    ok = len(log.comps) == len(comps) and all(
        a[0] == b[0] and len(a[1]) == 6 and same_point(a[1], b[1]) for a, b in zip(log.comps, comps))
    ctx.expect(ok, f"{at}: components {log.comps}, expected {comps}", file=raw)
    ctx.ev("components", len(comps))


def same_point(a, b):
    return all(abs(x - y) < 1e-9 * max(1, abs(y)) for x, y in zip(a, b))


def flat(v, src, keys, i, mi, t=(1, 1, 0, 0), depth=0):
    """segments of the glyph with its components resolved; None when they are circular"""
    if depth > 8:
        return None
    g = src.glyphs[i]
    sx, sy, dx, dy = t
    out = []
    for c in model(g.nodes, mi):
        if c is None:
            return None
        out.append([(sx * p[0] + dx, sy * p[1] + dy) for p in
                    [c[0]] + [q for s in c[1] for q in s[1:]]])
    for c in g.comps:
        u = flat(v, src, keys, c["gid"], mi,
                 (sx * c["scaleX"][mi], sy * c["scaleY"][mi],
                  sx * c["offsetX"][mi] + dx, sy * c["offsetY"][mi] + dy), depth + 1)
        if u is None:
            return None
        out += u
    return out


def components(src, keys, g, mi):
    return [(keys[c["gid"]], (c["scaleX"][mi], 0, 0, c["scaleY"][mi], c["offsetX"][mi],
                              c["offsetY"][mi])) for c in g.comps]


def draw_all(ctx, v, at, key, mi, want, comps, raw):
    g = v[key]
    g.master_index = mi
    jobs = [("draw", g.draw, SegmentLog()), ("drawPoints", g.drawPoints, PointLog()),
            ("drawPointsDirect", g.drawPointsDirect, PointLog()),
            ("drawPoints of the master", v.get_masters()[mi][key].drawPoints, PointLog())]
    ctx.sub("jobs", at).shuffle(jobs)
    for name, fn, log in jobs:
        ok, _ = ctx.guard(f"{at}: {name}", fn, log, detail={"file": raw})
        if ok:
            judge(ctx, f"{at}: {name}", log, want, comps, raw)
            ctx.ev(name)
    g.master_index = 0


def cold(ctx, r, label, src, raw):
    """A glyph object which was made for an entry draws without any look-up before"""
    from vfbLib.vfb.glyph import VfbGlyph, VfbGlyphMaster

    idx = [i for i, g in enumerate(src.glyphs) if g.comps] or list(range(len(src.glyphs)))
    i = r.choice(idx)
    keys = list(lib.load(raw).keys())
    v = lib.load(raw)
    e = [x for x in v.entries if x.id == 2001][i]
    mi = r.randrange(src.m)
    g = src.glyphs[i]
    parent = v if r.random() < 0.7 else v.get_masters()[mi]
    o = VfbGlyph(e, parent)
    o.master_index = mi
    name, log = r.choice((("draw", SegmentLog()), ("drawPoints", PointLog())))
    if name == "drawPoints" and r.random() < 0.5:
        o = VfbGlyphMaster(o, mi)
    at = f"{label}: glyph {keys[i]!r}, master {mi}, {name} of a new glyph object"
    ok, _ = ctx.guard(at, lambda: getattr(o, name)(log), detail={"file": raw})
    if ok:
        judge(ctx, at, log, model(g.nodes, mi), components(src, keys, g, mi), raw)
        ctx.ev("new glyph objects")


def run(ctx):
    from fontTools.pens.recordingPen import DecomposingRecordingPen

    ctx.rule = (
        "every glyph of every master of real and generated fonts, drawn with each method onto "
        "recording pens, before and after the nodes were changed and the file was written, and with components resolved: "
        "segments and components against the stored ones"
    )
    for label, src, v, raw in ufox.sources(ctx, 25, GENS, quick_limit=30000):
        r = ctx.sub("draw", label)
        if r.random() < 0.3:
            v = lib.load(raw)  # not decoded
        if src.glyphs and len(raw) < 60000:
            for _ in range(2):
                cold(ctx, r, label, src, raw)
        keys = list(v.keys())
        again = r.random() < 0.3
        for i, (k, g) in enumerate(zip(keys, src.glyphs)):
            if again and i % 4 == 0:
                # writing compiles the glyphs
                ctx.guard(f"{label}: writing", lib.dump, v, detail={"file": raw})
                ctx.ev("written before drawing")
            for mi in range(src.m):
                at = f"{label}: glyph {k!r}, master {mi}"
                want = model(g.nodes, mi)
                comps = components(src, keys, g, mi)
                if None in want:
                    ctx.ev("contours with both kinds of curves in one segment", want.count(None))
                draw_all(ctx, v, at, k, mi, want, comps, raw)
                ctx.case((label, ctx.seed, i, mi), bool(want or comps))
            # as a glyph set
            ref = flat(v, src, keys, i, 0)
            if ref is not None and g.comps:
                pen = DecomposingRecordingPen(v)
                ok, _ = ctx.guard(f"{label}: decomposing {k!r}", v[k].draw, pen, detail={"file": raw})
                if ok:
                    have, cur = [], None
                    for op, args in pen.value:
                        if op == "moveTo":
                            cur = [args[0]]
                            have.append(cur)
                        elif args:
                            cur.extend(args)
                    good = len(have) == len(ref)
                    for a, b in zip(have, ref):
                        # closing lines may be there or not
                        good &= (len(a) >= len(b) and all(map(same_point, a, b))
                                 and all(same_point(x, b[0]) for x in a[len(b):]))
                    ctx.expect(good, f"{label}: {k!r} with components resolved: {have}, expected {ref}",
                               file=raw)
                    ctx.ev("resolved composites")
        # changes are drawn
        for i, (k, g) in enumerate(zip(keys, src.glyphs)):
            if not g.nodes or r.random() < 0.6 or len(keys) > 50:
                continue
            v[k].entry.decompile()
            nodes = v[k].entry.data["nodes"]
            held = [v.getGlyphMaster(k, x) for x in range(src.m)]
            if r.random() < 0.7:
                for x in held:
                    ctx.guard(f"{label}: glyph {k!r}: drawing", x.drawPoints, PointLog())
            n = r.randrange(len(nodes))
            mi = r.randrange(src.m)
            q = r.randrange(len(nodes[n]["points"][mi]))
            p = (r.randint(-500, 1500), r.randint(-500, 1500))
            nodes[n]["points"][mi][q] = p
            at = f"{label}: glyph {k!r}, master {mi}, after a change"
            if r.random() < 0.3:
                ctx.guard(f"{at}: writing", lib.dump, v, detail={"file": raw})
            v[k].entry.decompile()
            data = v[k].entry.data
            kind = r.randrange(4)
            if kind == 1:
                # another node at the end
                data["nodes"].append({"type": "line", "flags": 0, "points": [
                    [(r.randint(-500, 1500), r.randint(-500, 1500))] for _ in range(src.m)]})
            elif kind == 2:
                data["nodes"].clear()
            elif kind == 3:
                # opens or closes the paths
                for x in data["nodes"]:
                    if x["type"] == "move":
                        x["flags"] ^= 8
            for c in data.get("components", []):
                if r.random() < 0.5:
                    c["offsetX"][mi] += 10
            comps = [(keys[c["gid"]], (c["scaleX"][mi], 0, 0, c["scaleY"][mi], c["offsetX"][mi],
                                       c["offsetY"][mi])) for c in data.get("components", [])]
            want = model(data["nodes"], mi)
            draw_all(ctx, v, at, k, mi, want, comps, raw)
            log = PointLog()
            ok, _ = ctx.guard(f"{at}: the same glyph object", held[mi].drawPoints, log, detail={"file": raw})
            if ok:
                judge(ctx, f"{at}: the same glyph object", log, want, comps, raw)
            ctx.ev("changed glyphs")
    ctx.require(**{"contours": 500, "components": 40, "draw": 200, "drawPoints": 200,
                   "drawPointsDirect": 200, "drawPoints of the master": 200,
                   "resolved composites": 10, "written before drawing": 10, "changed glyphs": 20,
                   "new glyph objects": 30})
