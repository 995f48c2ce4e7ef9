"""Shared by the UFO checks: sources, conversion, lookups."""
import collections
import copy
import io
from contextlib import redirect_stdout
from pathlib import Path

from vfbLib.ufo.builder import VfbToUfoBuilder

from vm import core, fontgen, lib, ref

TT_GLYPH = "com.fontlab.ttprogram"
TT_FONT = "com.fontlab.v2.tth"
PS_GLYPH = "com.adobe.type.autohint.v2"


class SrcGlyph:
    def __init__(self, s):
        self.s = s
        self.name = s["name"]
        self.ex = collections.defaultdict(list)

    def one(self, eid, default=None):
        L = self.ex.get(eid)
        return L[-1] if L else default

    @property
    def nodes(self):
        return self.s.get("nodes", [])

    @property
    def comps(self):
        return self.s.get("components", [])


class Src:
    """What the file says, by part."""

    GLYPH_IDS = {i for i in ref.KIND if i in (
        2008, 2007, 2013, 2023, 2019, 2010, 2009, 2011, 2028, 2027, 1250, 1253, 2012, 2015,
        2017, 2018, 2020, 2029, 2031, 2034, 2033)}

    def __init__(self, entries):
        self.font = {}
        self.multi = collections.defaultdict(list)
        self.glyphs = []
        for eid, d in entries:
            if eid == 2001:
                self.glyphs.append(SrcGlyph(d))
            elif eid in self.GLYPH_IDS and self.glyphs:
                self.glyphs[-1].ex[eid].append(d)
            else:
                self.font[eid] = d
                self.multi[eid].append(d)
        self.m = self.font.get(1503, 1)
        self.naxes = self.font.get(1513, 0)


def from_vfb(v):
    return Src([(e.id, copy.deepcopy(e.data)) for e in v.entries])


def convert(v, path=None, **opts):
    """-> builder, UFOs, designspace"""
    b = VfbToUfoBuilder(v, **opts)
    with redirect_stdout(io.StringIO()):
        ufos, ds = b.get_ufos_designspace(Path(path or "out/font.ufo"), silent=True)
    return b, ufos, ds


def spare(r, *names):
    """options that must not matter for what is looked at"""
    return {n: r.random() < 0.4 for n in names}


def order(ufo):
    return list(ufo.lib.get("public.glyphOrder", []))


def real_fonts(ctx, quick_limit=120_000):
    for p in lib.REAL:
        if ctx.quick and p.stat().st_size > quick_limit:
            continue
        yield p


def sources(ctx, nmin, gens, opts=None, real=True, quick_limit=120_000, frac=1.0):
    """Yield (label, Src, Vfb, bytes) of real and of generated fonts, until the budget ends.
    gens: list of keyword dicts for the generator; opts are passed to Vfb."""
    if real:
        for p in real_fonts(ctx, quick_limit):
            raw = p.read_bytes()
            v = lib.load(raw, **(opts or {}))
            v.decompile()
            ctx.ev("real fonts")
            yield p.name, from_vfb(v), v, raw
    n = 0
    while ctx.more(n, nmin, frac):
        r = ctx.sub("font", n)
        kw = dict(r.choice(gens))
        g, entries, raw = fontgen.gen(r, **kw)
        src = Src(entries)
        v = lib.load(raw, **(opts or {}))
        v.decompile()
        src.gen = g
        ctx.ev("generated fonts")
        yield f"gen{n}", src, v, raw
        n += 1
        if len(ctx.violations) > 10:
            return


# -- outlines ---------------------------------------------------------------

def split_contours(nodes):
    """[[node index]] by contour"""
    out = []
    for k, n in enumerate(nodes):
        if n["type"] == "move":
            out.append([])
        out[-1].append(k)
    return out


def returns(first, last):
    """the last node ends at the start of the contour in every master"""
    return all(tuple(a[0]) == tuple(b[0]) for a, b in zip(first["points"], last["points"]))


def expected_contours(nodes, mi, index=False):
    """[[(type, smooth, (x, y))]] of the UFO glyph of one master; with index, the node that
    the point comes from (or None) is added"""
    out = []
    for ks in split_contours(nodes):
        pts = []
        for k in ks:
            n = nodes[k]
            p = [tuple(q) for q in n["points"][mi]]
            smooth = bool(n["flags"] & 1)
            t = n["type"]
            if t == "move":
                pts.append(("move", smooth, p[0], k))
            elif t == "line":
                pts.append(("qcurve" if pts[-1][0] is None else "line", smooth, p[0], k))
            elif t == "curve":
                pts += [(None, False, p[1], None), (None, False, p[2], None),
                        ("curve", smooth, p[0], k)]
            else:
                pts.append((None, False, p[0], k))
        first, last = nodes[ks[0]], nodes[ks[-1]]
        if not first["flags"] & 8 and len(ks) > 1:
            if pts[-1][0] is None:
                pts[0] = ("qcurve",) + pts[0][1:]
            elif pts[-1][0] == "curve" and returns(first, last):
                pts[0] = pts.pop()
            else:
                pts[0] = ("line",) + pts[0][1:]
        out.append(pts if index else [q[:3] for q in pts])
    return out


def ufo_contours(glyph):
    return [[(p.type, bool(p.smooth), (p.x, p.y)) for p in c.points] for c in glyph.contours]


def node_positions(nodes, mi):
    """position of each node in the master"""
    return [tuple(n["points"][mi][0]) for n in nodes]


def named_points(glyph):
    out = collections.defaultdict(list)
    for ci, c in enumerate(glyph.contours):
        for pi, p in enumerate(c.points):
            if p.name is not None:
                out[p.name].append((ci, pi, (p.x, p.y)))
    return out


# -- whole UFOs --------------------------------------------------------------

def plain(x):
    """Only dicts, lists, numbers, strings; tuples are lists, keys are strings"""
    import datetime
    import enum

    if isinstance(x, enum.Enum):
        return x.value
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return x
    if isinstance(x, float):
        return int(x) if x.is_integer() else x
    if isinstance(x, (bytes, bytearray)):
        return "bytes:" + bytes(x).hex()
    if isinstance(x, datetime.datetime):
        return x.isoformat()
    if isinstance(x, dict) or hasattr(x, "items"):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [plain(v) for v in x]
    if hasattr(x, "__attrs_attrs__"):
        return {a.name.lstrip("_"): plain(getattr(x, a.name, None)) for a in x.__attrs_attrs__}
    raise TypeError(f"{type(x)}: {x!r}")


def dump_glyph(g):
    return {
        "name": g.name, "width": plain(g.width), "height": plain(g.height),
        "unicodes": plain(list(g.unicodes)), "note": g.note or None,
        "contours": [[(p.type, bool(p.smooth), p.name, plain(p.x), plain(p.y)) for p in c.points]
                     for c in g.contours],
        "components": [(c.baseGlyph, plain(tuple(c.transformation))) for c in g.components],
        "anchors": [(attr(a, "name"), plain(attr(a, "x")), plain(attr(a, "y")),
                     attr(a, "color")) for a in g.anchors],
        "guidelines": [guide(x) for x in g.guidelines], "lib": plain(dict(g.lib)),
    }


def attr(o, k):
    return o.get(k) if isinstance(o, dict) else getattr(o, k, None)


def guide(x):
    return tuple(plain(attr(x, k) or 0) for k in ("x", "y", "angle")) \
        + (attr(x, "name") or None, attr(x, "color") or None)


INFO = None


def dump_info(info):
    global INFO
    if INFO is None:
        from ufoLib2.objects.info import Info

        INFO = [a.name.lstrip("_") for a in Info.__attrs_attrs__]
    out = {}
    for k in INFO:
        v = getattr(info, k, None)
        if k == "guidelines":
            v = [guide(x) for x in v or []]
        v = plain(v)
        if isinstance(v, list):
            v = [{a: b for a, b in x.items() if b is not None} if isinstance(x, dict) else x
                 for x in v]
        if v is not None and v != []:
            out[k] = v
    return out


def dump(u):
    """The content of a UFO"""
    return {
        "info": dump_info(u.info), "features": u.features.text,
        "groups": {k: list(v) for k, v in u.groups.items()},
        "kerning": {repr(tuple(k)): plain(v) for k, v in u.kerning.items()},
        "lib": plain(dict(u.lib)),
        "layers": [layer.name for layer in u.layers],
        "glyphs": {layer.name: {g.name: dump_glyph(g) for g in layer} for layer in u.layers},
    }


def dump_ds(ds):
    if ds is None:
        return None
    return {
        "axes": [(a.name, a.tag, plain(a.minimum), plain(a.default), plain(a.maximum), plain(a.map),
                  [(x.name, plain(x.userValue)) for x in a.axisLabels]) for a in ds.axes],
        "sources": [(s.filename, s.name, s.familyName, s.styleName,
                     plain(s.getFullDesignLocation(ds))) for s in ds.sources],
        "instances": [(i.filename, i.name, i.familyName, i.styleName, i.styleMapFamilyName,
                       i.styleMapStyleName, plain(i.userLocation), plain(i.designLocation))
                      for i in ds.instances],
    }


def differences(a, b, path="", out=None, limit=200):
    """[(path, a, b)] of two dumps"""
    out = [] if out is None else out
    if len(out) >= limit:
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            differences(a.get(k), b.get(k), f"{path}/{k}", out, limit)
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            differences(x, y, f"{path}/{i}", out, limit)
    elif a != b:
        out.append((path, a, b))
    return out
