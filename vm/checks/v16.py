"""Cubic outlines are converted to quadratic ones within the allowed error."""
import copy
import io
import math
import shutil
import sys
from contextlib import redirect_stderr, redirect_stdout
from pathlib import Path
from unittest.mock import patch

from vm import fontgen, lib, ufox
from vm.checks.v14 import model

BUDGET = (14, 300)
GENS = [dict(nglyphs=3, axes=0), dict(nglyphs=4, axes=1), dict(nglyphs=2, axes=2),
        dict(nglyphs=5, axes=0, focus=("components", "kerning", "anchors", "hints", "links")),
        dict(nglyphs=3, axes=1, focus=("mm", "components", "guides", "hints", "hintmasks", "mask"))]
REAL = ("cu2qu.vfb", "cu2qu_2m.vfb", "hintrep.vfb", "masters.vfb", "mm_anchors.vfb", "mask.vfb",
        "open_paths.vfb", "closepath.vfb", "test.vfb", "sketch.vfb", "image.vfb", "globalmask.vfb")


def outline(r, m, upm):
    """nodes of a contour around an ellipse, with lines and curves, compatible masters"""
    k = r.randint(3, 7)
    cx, cy = r.randint(0, upm), r.randint(-200, upm)
    big = max(upm // 2, 60)
    rx, ry = r.randint(20, big), r.randint(20, big)
    ph = r.random() * 6.3
    kinds = [r.choice(("line", "curve", "curve")) for _ in range(k)]
    if r.random() < 0.15:
        kinds = ["line"] * k
    closed = r.random() < 0.8
    explicit = r.random() < 0.6
    wob = [(r.uniform(0.7, 1.3), r.uniform(-0.2, 0.2)) for _ in range(k)]
    han = [(r.uniform(0.1, 0.6), r.uniform(-0.3, 0.3), r.uniform(0.1, 0.6), r.uniform(-0.3, 0.3))
           for _ in range(k)]
    masters = []
    for j in range(m):
        s = 1 + 0.2 * j
        jit = r.randint(0, 15) if j else 0

        def at(i, f=1.0, d=0.0):
            a = ph + 2 * math.pi * i / k + d
            return (round(cx + s * rx * f * math.cos(a)) + (r.randint(-jit, jit) if jit else 0),
                    round(cy + s * ry * f * math.sin(a)) + (r.randint(-jit, jit) if jit else 0))

        on = [at(i + wob[i][1], wob[i][0]) for i in range(k)]
        row = [("move", [on[0]])]
        for i in range(k):
            a, b = on[i], on[(i + 1) % k]
            if i == k - 1 and not (closed and explicit):
                break
            if kinds[i] == "line":
                row.append(("line", [b]))
            else:
                t = math.hypot(b[0] - a[0], b[1] - a[1])
                dx, dy = ((b[0] - a[0]) / t, (b[1] - a[1]) / t) if t else (0, 0)
                h = han[i]
                c1 = (round(a[0] + t * (dx * h[0] - dy * h[1])), round(a[1] + t * (dy * h[0] + dx * h[1])))
                c2 = (round(b[0] - t * (dx * h[2] - dy * h[3])), round(b[1] - t * (dy * h[2] + dx * h[3])))
                row.append(("curve", [b, c1, c2]))
        masters.append(row)
    return [{"type": t, "flags": 0 if (n or closed) else 8,
             "points": [masters[j][n][1] for j in range(m)]}
            for n, (t, _) in enumerate(masters[0])]


def ring(c):
    """(start, [segments incl. the closing line]) of a contour of v14.model()"""
    start, segs, closed = c
    segs = list(segs)
    if closed and segs and segs[-1][-1] != start:
        segs.append(("line", start))
    return start, segs, closed


def reverse(c):
    """the same contour in the other direction"""
    start, segs, closed = ring(c)
    pts = [start] + [s[-1] for s in segs]
    out = [(s[0], *reversed(s[1:-1]), pts[i]) for i, s in reversed(list(enumerate(segs)))]
    return (pts[-1], out, closed)


def curve(p, t):
    q = 1 - t
    return tuple(q ** 3 * a + 3 * q * q * t * b + 3 * q * t * t * c + t ** 3 * d
                 for a, b, c, d in zip(*p))


def spline(start, offs, end, j, t):
    """point of the j-th part of the quadratic spline"""
    def mid(a, b):
        return ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)

    a = start if j == 0 else mid(offs[j - 1], offs[j])
    b = end if j == len(offs) - 1 else mid(offs[j], offs[j + 1])
    q = 1 - t
    return tuple(q * q * x + 2 * q * t * y + t * t * z for x, y, z in zip(a, offs[j], b))


def fits(new, old, err):
    """None, or what doesn't fit; new and old are rings in the same direction"""
    (ns, nsegs, nc), (os_, osegs, oc) = new, old
    if nc != oc and (nsegs or osegs):
        return "opened or closed"
    if len(nsegs) != len(osegs):
        return f"{len(nsegs)} segments instead of {len(osegs)}"
    if ns != os_:
        return f"starts at {ns}, expected {os_}"
    worst, p, q = 0, ns, os_
    for a, b in zip(nsegs, osegs):
        if a[-1] != b[-1]:
            return f"segment ends at {a[-1]}, expected {b[-1]}"
        if b[0] == "curve":
            if a[0] != "qcurve":
                return f"{a[0]} for a curve"
            offs = a[1:-1]
            cub = (q, b[1], b[2], b[3])
            for j in range(len(offs)):
                for t in (0.0, 0.13, 0.25, 0.4, 0.5, 0.6, 0.75, 0.87, 1.0):
                    x = spline(p, offs, a[-1], j, t)
                    y = curve(cub, (j + t) / len(offs))
                    worst = max(worst, math.dist(x, y))
        elif a != b:
            return f"{a} instead of {b}"
        p, q = a[-1], b[-1]
    if worst > err:
        return f"deviates by {worst:.3f}, allowed {err:.3f}"
    return None


def turn(ring_, k):
    start, segs, closed = ring_
    if not closed or not segs:
        return ring_
    k %= len(segs)
    return (segs[k - 1][-1] if k else start, segs[k:] + segs[:k], closed)


def nodegen(ring_):
    """without lines of no length"""
    start, segs, closed = ring_
    out, p = [], start
    for s in segs:
        if not (s[0] == "line" and s[1] == p):
            out.append(s)
        p = s[-1]
    return (start, out, closed)


def call(argv):
    from vfbLib.cu2qu import vfbcu2qu

    out = io.StringIO()
    with patch.object(sys, "argv", ["vfbcu2qu"] + argv), redirect_stdout(out), redirect_stderr(out):
        vfbcu2qu()
    return out.getvalue()


def rest(d):
    d = copy.deepcopy(d)
    for k in ("nodes", "hints"):
        d.pop(k, None)
    return d


def run(ctx):
    ctx.rule = (
        "real and generated fonts with cubic outlines, one or several masters, converted by the "
        "command line tool with several limits: every segment of every contour of every master "
        "against the original, compatible masters, all other content unchanged, or no output"
    )
    n = 0
    files = [p for p in lib.REAL if p.name in REAL]
    if not ctx.quick:
        files += [p for p in lib.REAL if p.name not in REAL]
    d = Path("w")
    d.mkdir(exist_ok=True)
    while ctx.more(n, len(files) + 14):
        r = ctx.sub("font", n)
        if n < len(files):
            label, raw = files[n].name, files[n].read_bytes()
        else:
            label = f"gen{n}"
            g, entries, raw = fontgen.gen(r, without=("tth", "instructions"), **dict(r.choice(GENS)))
            v = lib.load(raw)
            v.decompile()
            upm = next((e.data for e in v.entries if e.id == 1135), 1000)
            for e in v.entries:
                if e.id == 1135 and r.random() < 0.5:
                    upm = e.data = r.choice((1000, 2048, 500, 8192, 16000))
                if e.id == 2001:
                    e.data["nodes"] = [
                        x for _ in range(r.choice((0, 1, 1, 2, 3)))
                        for x in outline(r, v.num_masters, upm or 1000)]
                    e.data.pop("imported", None)
            k = 0
            for e in v.entries:
                if e.id == 2001:
                    k = len(e.data["nodes"])
                if e.id == 2008:
                    e.data = {x: [[r.randrange(k), r.randrange(k)] for _ in range(r.randint(0, 2))]
                              if k else [] for x in "xy"}
            raw = lib.dump(v)
        n += 1
        one(ctx, r, d, label, raw)
        if len(ctx.violations) > 10:
            break
    shutil.rmtree(d)
    ctx.require(**{"curves": 150, "contours": 100, "multiple masters": 4, "fonts": 15})


def one(ctx, r, d, label, raw):
    v = lib.load(raw)
    v.decompile()
    src = ufox.from_vfb(v)
    upm = src.font.get(1135, 0)
    rel = r.choice((None, None, 0.0005, 0.002, 0.01, 0.0002, 0.0001) if upm < 5000
                   else (None, 0.0001, 0.0001, 0.0002, 0.0002, 0.0005, 0.002))
    err = (0.001 if rel is None else rel) * upm
    p = d / "in.vfb"
    p.write_bytes(raw)
    out = d / "out.vfb"
    at = f"{label} (limit {err} units)"
    try:
        call([str(p), str(out)] + ([] if rel is None else ["-m", str(rel)]))
        failed = None
    except Exception as e:
        failed = e
    ctx.expect(p.read_bytes() == raw, f"{at}: the input file was changed", file=raw)
    have = out.exists()
    ctx.expect(sorted(x.name for x in d.iterdir()) == ["in.vfb"] + ["out.vfb"] * have,
               f"{at}: other files were written", file=raw)
    if failed is not None:
        ctx.expect(not have, f"{at}: failed, but there is an output", file=raw)
        ctx.ev("refused: " + type(failed).__name__)
        expected = any(g.nodes for g in src.glyphs) and (
            not upm or src.m > 1 or not closed_ok(src))
        ctx.expect(expected, f"{at}: {type(failed).__name__}: {failed}", file=raw)
        return
    if not have:
        ctx.expect(not any(g.nodes for g in src.glyphs), f"{at}: no output", file=raw)
        ctx.ev("nothing to convert")
        return
    new = out.read_bytes()
    out.unlink()
    ok, w = ctx.guard(f"{at}: reading the output", lib.load, new, detail={"file": raw})
    if not ok:
        return
    ok, _ = ctx.guard(f"{at}: decoding the output", w.decompile, detail={"file": raw})
    if not ok:
        return
    ctx.ev("fonts")
    ctx.ev("multiple masters", src.m > 1)
    a = [e for e in v.entries if e.id != 2008]
    b = [e for e in w.entries if e.id != 2008]
    # links are between nodes of the cubic outlines
    ctx.ev("links", sum(e.id == 2008 and any(e.data.values()) for e in v.entries))
    ctx.expect(not any(e.id == 2008 and any(e.data.values()) for e in w.entries),
               f"{at}: links refer to nodes which are gone", file=raw)
    if not ctx.equal([e.id for e in b], [e.id for e in a], f"{at}: entries", file=raw):
        return
    for x, y in zip(b, a):
        if x.id == 2001:
            diff = lib.content_diff(2001, rest(x.data), rest(y.data))
        else:
            diff = lib.content_diff(x.id, x.data, y.data)
        ctx.expect(diff is None, f"{at}: entry {x.id} was changed: {diff}", file=raw)
    dst = ufox.from_vfb(w)
    for g, h in zip(src.glyphs, dst.glyphs):
        gat = f"{at}: glyph {g.name!r}"
        if not g.nodes:
            ctx.expect(not h.nodes, f"{gat}: nodes where none were", file=raw)
            continue
        ctx.expect(all(x["type"] in ("move", "line", "qcurve") for x in h.nodes),
                   f"{gat}: cubic curves are left", file=raw)
        ctx.expect(not (h.s.get("hints") or {}).get("hintmasks"),
                   f"{gat}: hint replacement refers to nodes which are gone", file=raw)
        for mi in range(src.m):
            old, now = model(g.nodes, mi), model(h.nodes, mi)
            if None in old:
                ctx.ev("mixed curves")
                break
            if not ctx.expect(len(old) == len(now), f"{gat}, master {mi}: {len(now)} contours, "
                              f"expected {len(old)}", file=raw):
                break
            for ci, (o, x) in enumerate(zip(old, now)):
                o, x = nodegen(reverse(o)), nodegen(ring(x))
                # points are rounded (0.71), the limit is for exact coordinates
                bad = None
                for k in range(max(1, len(o[1]))):
                    res = fits(x, turn(o, k), err + 0.75)
                    if res is None:
                        bad = None
                        break
                    if bad is None or res.startswith("dev"):
                        bad = res
                ctx.expect(bad is None, f"{gat}, master {mi}, contour {ci}: {bad}", file=raw,
                           new=x, old=o)
                ctx.ev("contours")
                ctx.ev("curves", sum(s[0] == "curve" for s in o[1]))
        ctx.case((label, ctx.seed, g.name, rel), True)


def closed_ok(src):
    """no segment with both kinds of curves"""
    return all(None not in model(g.nodes, 0) for g in src.glyphs)


