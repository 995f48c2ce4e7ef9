"""Generator of coherent fonts: [(entry id, decompiled structure)] in file order.

Everything that refers to something else in the font (glyph indices, node indices, stems,
zones, hints, class members) refers to something that exists, as in files that were made
with the editor; names, values and the presence of parts are random.
"""
import string

from vfbLib.vfb.entry import VfbEntry
from vfbLib.vfb.vfb import Vfb

from vm import ref

AXES = ("Weight", "Width", "Optical Size", "Serif", "Slant", "Contrast", "x", " Lead", "weight")
TT_DIRS = ("H", "V")
BASES = (
    "A B C D E F G H I J K L M N O P a b c d e f g h i j k l m n o p zero one two period "
    "comma hyphen space .notdef a.sc b.alt1 f_f_i uni0411 uni20AC Aacute adieresis acute "
    "dieresis gravecomb _part_stem u1F600 quoteleft T.ss01 longglyphname_with.suffix.alt"
).split()


BIG = ("glyphs", "coords", "nodes", "contours", "hints", "links", "tth", "stems", "guides",
       "components", "kerning", "unicodes", "anchors", "classes", "features", "names", "texts",
       "bitmaps", "nodes", "hints", "components", "kerning", "anchors", "coords", "programs")


class FontGen:
    """focus: names of parts which shall be there in most glyphs and fonts.
    parts not in focus occur with a lower probability; 'without' leaves parts out."""

    def __init__(self, rng, focus=(), without=(), axes=None, nglyphs=None, platform=None):
        self.r = rng
        self.focus, self.without = set(focus), set(without)
        if axes is None:
            axes = rng.choice((0, 0, 0, 1, 1, 2) if "mm" not in focus
                              else (1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4))
        self.naxes = axes
        self.m = 2**axes
        self.n = rng.randint(1, 12) if nglyphs is None else nglyphs
        self.platform = platform or rng.choice(("macos", "windows"))
        self.latin1 = self.platform == "windows"
        # in what the font is bigger than usual
        self.big = set(rng.sample(BIG, rng.choice((1, 1, 2, 4)))) if rng.random() < 0.4 else set()
        if "longtth" in self.focus:
            self.big = {"nodes"}
        if "glyphs" in self.big and nglyphs is not None and nglyphs < 2:
            self.big.discard("glyphs")
        if "glyphs" in self.big:
            self.n = rng.choice((30, 30, 70, 70, 130, 130, 300)) if self.m < 4 else 30
            self.big &= {"glyphs", "coords", "kerning", "classes", "stems", "names"}

    def many(self, dim, n, hi):
        """n, or more than that in fonts which are big in this dimension"""
        if dim in self.big:
            if dim not in ("nodes", "contours", "bitmaps") and self.r.random() < 0.2:
                hi *= 4
            return self.r.choice((hi, self.r.randint(n, max(n, hi)), n))
        return n

    def has(self, part, p=0.3):
        if part in self.without:
            return False
        return self.r.random() < (0.85 if part in self.focus else p)

    # -- values --------------------------------------------------------------
    def c(self, lo=-600, hi=1400):
        r = self.r
        if "coords" in self.big and r.random() < 0.15:
            return r.choice((-32768, -32767, 32767, -10000, 16383, -1132, 1131, 1132, 108, -108,
                             r.randint(-32768, 32767)))
        return r.choice((0, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi),
                         r.randrange(lo, hi + 1, 10)))

    def text(self, n=20, empty=True):
        r = self.r
        if "texts" in self.big and r.random() < 0.3:
            n = r.choice((300, 2000))
        alpha = string.ascii_letters + string.digits + " .,-_:;()'/&<>\"" + \
            ("äöüéßñ©®–’" if self.latin1 else "")
        t = "".join(r.choice(alpha) for _ in range(r.randint(0 if empty else 1, n)))
        if r.random() < 0.9:
            t = t.strip()
        elif r.random() < 0.2:
            t = r.choice((" ", "  "))
        return t or ("" if empty else "x")

    def lines(self, n=20, empty=True):
        """text of several lines"""
        r = self.r
        if r.random() < 0.7:
            return self.text(n, empty)
        if r.random() < 0.2 and not empty:
            return r.choice((" ", "   ", "\n", " x", "x\n", "\tx"))
        return "\n".join(self.text(n) for _ in range(r.randint(2, 4))) or "x"

    def num(self, *usual):
        """a fractional number"""
        r = self.r
        return r.choice((r.choice(usual), r.choice(usual), r.uniform(-1000, 1000), r.uniform(-1, 1),
                         r.randint(-9999, 9999) / 1000, r.randint(-999, 999) / 10))

    def mm(self, f):
        """one value per master, sometimes the same for all"""
        if self.r.random() < 0.15:
            v = f()
            return [v] * self.m
        return [f() for _ in range(self.m)]

    # -- outlines ------------------------------------------------------------
    def contour(self):
        """nodes of one contour"""
        r, m = self.r, self.m
        kinds = r.choice((("line",), ("line", "curve"), ("curve",), ("line", "qcurve"),
                          ("qcurve",), ("line", "curve"), ("line", "curve", "qcurve")))
        is_open = r.random() < 0.25

        def pts(k):
            return [[(self.c(), self.c()) for _ in range(k)] for _ in range(m)]

        def flags():
            return r.choice((0, 0, 1, 0, 1, 2, 3, 4))

        start = {"type": "move", "flags": flags() | (8 if is_open else 0), "points": pts(1)}
        nodes = [start]
        n = r.choice((0, 1, 2, 3, 4, 6)) if r.random() < 0.4 else r.randint(2, 7)
        n = self.many("nodes", n, 60)
        for _ in range(n):
            t = r.choice(kinds)
            if t == "qcurve":
                for _ in range(self.many("nodes", r.randint(1, 3), 12)):
                    nodes.append({"type": "qcurve", "flags": r.choice((0, 0, 1)), "points": pts(1)})
                if r.random() < 0.8:
                    nodes.append({"type": "line", "flags": flags(), "points": pts(1)})
            else:
                nodes.append({"type": t, "flags": flags(), "points": pts(3 if t == "curve" else 1)})
        # an open contour can't end with off-curve points, nor can a curve follow them
        fixed = [start]
        for nd in nodes[1:]:
            if nd["type"] == "curve" and fixed[-1]["type"] == "qcurve":
                fixed.append({"type": "line", "flags": flags(), "points": pts(1)})
            fixed.append(nd)
        nodes = fixed
        if is_open and nodes[-1]["type"] == "qcurve":
            nodes.append({"type": "line", "flags": flags(), "points": pts(1)})
        # explicit return to the start, in all masters or in some of them
        if (len(nodes) > 2 and nodes[-1]["type"] != "qcurve" or nodes[-1]["type"] == "curve") and r.random() < 0.5:
            for i in range(m):
                if r.random() < 0.85:
                    nodes[-1]["points"][i][0] = start["points"][i][0]
        # through the starting point
        if len(nodes) > 3 and r.random() < 0.08:
            nd = r.choice(nodes[1:-1])
            for i in range(m):
                nd["points"][i][0] = start["points"][i][0]
        # handles without length, points on top of each other
        for a, b in zip(nodes, nodes[1:]):
            k = r.random()
            for i in range(m):
                if r.random() < 0.1:
                    continue
                p, q = a["points"][i], b["points"][i]
                if b["type"] == "curve":
                    if k < 0.06 or k > 0.94:
                        q[1] = p[0]
                    if k < 0.12:
                        q[2] = q[0]
                    if 0.2 < k < 0.26:
                        q[1] = q[2] = q[0]
                elif b["type"] == "line" and k < 0.04 and b is not nodes[-1]:
                    q[0] = p[0]
        return nodes

    def nodes(self, lo=0):
        r = self.r
        out = []
        for _ in range(self.many("contours", max(lo, r.choice((0, 1, 1, 2, 2, 3))), 20)):
            out += self.contour()
        return out

    # -- glyphs --------------------------------------------------------------
    def glyph_names(self):
        r = self.r
        names = []
        pool = list(BASES)
        r.shuffle(pool)
        for i in range(self.n):
            if pool and r.random() < 0.85:
                names.append(pool.pop())
            elif "names" in self.big:
                names.append(r.choice(("g", "x.", "very_long.", "f_f_")) * r.choice((1, 9, 12))
                             + f"{i}")
            else:
                names.append(f"glyph{i:05d}")
        if "duplicates" in self.focus and self.n > 1:
            for _ in range(r.randint(1, 3)):
                i, j = r.randrange(self.n), r.randrange(self.n)
                names[i] = names[j]
                if r.random() < 0.2:
                    names[r.randrange(self.n)] = names[j] + r.choice(("#0", "#1"))
            if r.random() < 0.15:  # the same name for most of them
                nm = r.choice(names)
                names = [nm if r.random() < 0.9 else x for x in names]
        if "oddnames" in self.focus:
            names = [r.choice((" ", "", "", "")) + x + r.choice((" ", "", "", "  ")) for x in names]
        return names

    def hints(self):
        r = self.r
        h = {"h": [], "v": []}
        for d in "hv":
            for _ in range(self.many("hints", r.choice((0, 1, 1, 2, 3)), 24)):
                h[d].append([
                    {"pos": self.c(), "width": r.choice((r.randint(1, 200), r.randint(-200, 200),
                                                         -20, -21))}
                    for _ in range(self.m)
                ])
        return h

    def links(self, n):
        r = self.r
        out = {"x": [], "y": []}
        if n:
            for d in "xy":
                for _ in range(self.many("links", r.choice((0, 0, 1, 1, 2)), 15)):
                    a = r.randrange(n)
                    b = r.choice((r.randrange(n), r.randrange(n), -1, -2))
                    out[d].append((a, b))
        return out

    def masks(self, h, links, n, ends=()):
        """hint replacement; indices count the hints, then the links"""
        r = self.r
        cnt = {"h": len(h["h"]) + len(links["y"]), "v": len(h["v"]) + len(links["x"])}
        out = []
        if not n or not (cnt["h"] or cnt["v"]):
            return out
        points = sorted(r.sample(range(n), min(n, self.many("hints", r.randint(0, 3), 12))))
        if ends and r.random() < 0.3:
            points = sorted({*points, *r.sample(ends, r.randint(1, min(3, len(ends))))})
        for k in range(len(points) + 1):
            for _ in range(self.many("hints", r.randint(0, 3), 8)):
                d = r.choice("hv")
                if cnt[d]:
                    out.append((d, r.randrange(cnt[d])))
            if k < len(points):
                p = points[k]
                out.append(("r", p if r.random() < 0.7 else -p - 1))
        return out

    def tth(self, n, ends=()):
        """commands for a glyph with n points (n is the left, n + 1 the right side bearing)"""
        r = self.r
        out = []

        def pt():
            if ends and r.random() < pe:
                return r.choice(ends)
            return r.randrange(n + 2) if r.random() < 0.2 else r.randrange(max(n, 1))

        pe = r.choice((0, 0.3, 0.9))
        cmds = list(ref.TT)
        if r.random() < 0.1:
            cmds = r.sample(cmds, r.choice((1, 2)))
        points = range(self.many("tth", r.randint(1, 6), 40))
        if "longtth" in self.focus and r.random() < 0.7:
            # all points, with few commands
            cmds = r.sample(("AlignH", "AlignV", "FDeltaH", "MDeltaV"), r.choice((1, 1, 2)))
            points = r.sample(range(n), min(n, r.choice((150, 200))))
            pe = -1
        for j in points:
            cmd = r.choice(cmds)
            d = {}
            for p in ref.TT[cmd][1].split():
                if p.startswith("pt"):
                    d[p] = j if pe < 0 else pt()
                elif p == "zone":
                    nz = self.nzones["T" if cmd == "AlignTop" else "B"]
                    if not nz:
                        break
                    d[p] = r.randrange(nz)
                elif p == "stem":
                    ns = self.nstems[cmd[-1]]
                    d[p] = r.choice((-1, -2, -3) if not ns else (-1, -2, r.randrange(ns),
                                                                 r.randrange(ns), r.randrange(ns)))
                    if r.random() < 0.1:
                        d[p] = ns + r.choice((0, 0, 1, 20))
                elif p == "align":
                    d[p] = r.choice((-1, 0, 1, 2, 3, 4))
                elif p == "shift":
                    d[p] = r.choice((-8, 8, 4, -1, r.randint(-64, 64)))
                elif p in ("ppm1", "ppm2"):
                    d[p] = r.randint(6, 90)
                else:
                    raise AssertionError(p)
            else:
                out.append({"cmd": cmd, "params": d})
        return out

    def guides(self):
        from vm.ref import angle_of

        r = self.r
        s = {"h": [], "v": []}
        for d in "hv":
            for _ in range(self.many("guides", r.choice((0, 1, 1, 2, 3)), 12)):
                s[d].append([
                    {"pos": self.c(), "angle": angle_of(r.choice((0, 0, r.randint(-20000, 20000),
                                                                  r.randint(-10**6, 10**6))))}
                    for _ in range(self.m)
                ])
        return s

    def guide_props(self, g):
        r = self.r
        s = {"h": [], "v": []}
        for d in "hv":
            for i in range(len(g[d])):
                if r.random() < 0.6:
                    p = {"index": i + 1}
                    if r.random() < 0.6:
                        p["color"] = "#%02x%02x%02x" % tuple(
                            r.choice((0, 255, r.randrange(256))) for _ in range(3))
                    t = self.text(8)
                    if t and r.random() < 0.8:
                        p["name"] = t
                    if len(p) > 1:
                        s[d].append(p)
            if r.random() < 0.15:  # of a guide which was removed
                s[d].append({"index": len(g[d]) + r.randint(1, 3), "name": "gone",
                             "color": "#ff0000"})
            if r.random() < 0.2:
                r.shuffle(s[d])
        return s

    def raster(self):
        r = self.r
        w, h = self.many("bitmaps", r.randint(1, 40), 300), self.many("bitmaps", r.randint(1, 12), 90)
        if r.random() < 0.06:
            w, h = r.choice(((0, 0), (0, h), (w, 0)))
        rows = ref.gen_raster(r, w, h)
        return w, h, {"data": rows, "preview": ref.preview(rows, w)}

    def glyph(self, i, name):
        """-> structure of the glyph, following entries"""
        r, m = self.r, self.m
        s = {"name": name, "num_masters": m}
        composite = i > 0 and self.has("components", 0.25)
        mixed = composite and r.random() < 0.2
        s["nodes"] = self.nodes(1 if self.focus & {"outlines", "tth", "hints"} else 0) \
            if (not composite or mixed) else []
        s["metrics"] = [(r.choice((0, r.randint(0, 1500), r.randint(0, 1500), r.randint(-300, 1500))), r.choice((0, 0, self.c())))
                        for _ in range(m)]
        if not composite and r.random() < 0.2:
            s["metrics"] = [s["metrics"][0]] * m
        ex = []
        n = len(s["nodes"])
        # first and last nodes of the contours
        types = [k["type"] for k in s["nodes"]] + ["move"]
        ends = [] if composite else [j for j in range(n) if "move" in types[j:j + 2]]
        links = {"x": [], "y": []}
        if self.has("links", 0.25) and not composite:
            links = self.links(n)
            ex.append((2008, links))
        weight = 1 + len(s["nodes"])
        if composite:
            s["components"] = []
            for _ in range(self.many("components", r.randint(1, 3), 12)):
                # only earlier glyphs: no cycles; in files any order is possible
                gid = r.randrange(i)
                # nested composites grow exponentially when they are drawn
                while weight + self.weights[gid] > 600 and gid:
                    gid = r.randrange(gid)
                weight += self.weights[gid]
                s["components"].append({
                    "gid": gid,
                    "offsetX": self.mm(self.c), "offsetY": self.mm(self.c),
                    "scaleX": self.mm(lambda: r.choice((1.0, 1.0, -1.0, 0.5, 1 / 3, 1.25, 0.7, 0.0,
                                                       r.randint(-2500, 2500) / 1000))),
                    "scaleY": self.mm(lambda: r.choice((1.0, 1.0, -1.0, 0.5, 2.0, 1.1, r.uniform(-2, 2)))),
                })
        self.weights.append(weight)
        if self.has("hints", 0.4):
            h = self.hints()
            if composite:
                # points of the components
                kids = [self.glyphs[c["gid"]][0] for c in s.get("components", ())]
                kn = sum(len(k["nodes"]) for k in kids)
                masks = self.masks(h, links, kn) if kn and not mixed and all(
                    "components" not in k for k in kids) and self.has("hintmasks", 0.1) else []
            else:
                masks = self.masks(h, links, n, ends) if self.has("hintmasks", 0.3) else []
            if masks:
                h["hintmasks"] = masks
            if h["h"] or h["v"] or masks:
                s["hints"] = h
        g = None
        if self.has("guides", 0.3):
            g = self.guides()
            s["guides"] = g
        if self.has("kerning", 0.3):
            s["kerning"] = {
                r.randrange(self.n): self.mm(lambda: r.choice(
                    (0, r.randint(-150, 150), *((r.randint(-32768, 32767),)
                                                if "kerning" in self.big else ()))))
                for _ in range(self.many("kerning", r.randint(1, 5), 20))
            }
        if self.has("tth", 0.25):
            npts = n
            if composite:
                npts = None
                if not mixed:
                    kids = [self.glyphs[c["gid"]][0] for c in s["components"]]
                    if all("components" not in k for k in kids):
                        npts = sum(len(k["nodes"]) for k in kids)
            if npts is not None:
                cmds = self.tth(npts, ends)
                if cmds:
                    s["tth"] = cmds
        if self.has("instructions", 0.1):
            s["imported"] = {
                "width": r.choice((s["metrics"][0][0], 0, 777)), "lsb": self.c(), "unknown1": 0,
                "unknown2": r.choice((0, 1)), "unknown3": 0,
                "bbox": [self.c() for _ in range(4)], "num_contours": 0, "endpoints": [],
                "instructions": self.asm(), "hdmx": [r.randrange(99)] * r.choice((0, 0, 3)),
            }
        # following entries
        if self.has("image", 0.1):
            w, h_, bm = self.raster()
            ex.append((2007, {"origin": (self.c(), self.c()), "size_units": r.choice(((100, 200), (w, h_), (333, 1), (0, 0), (1000, 700))),
                              "size_pixels": (w, h_), "bitmap": bm}))
        if self.has("bitmaps", 0.1):
            L = []
            for _ in range(r.randint(1, 3)):
                w, h_, bm = self.raster()
                L.append({"ppm": r.randint(6, 60), "origin": (r.randint(-5, 5), r.randint(-9, 5)),
                          "adv": (r.randint(0, 40), r.randint(0, 40)), "size_pixels": (w, h_),
                          "bitmap": bm})
            ex.append((2013, L))
        if self.has("vsb", 0.5):
            ex.append((2023, self.mm(lambda: r.choice((0, 0, self.c())))))
        if i % 3 != 2:  # no random numbers, the other parts stay as they are
            ex.append((2010, {"hint_replacement": 1, "other": [i % 29]}))
        if self.has("mask", 0.2):
            nd = self.nodes()
            ex.append((2009, {"weight_vector": r.choice(([1.0] + [0.0] * (m - 1), [1 / m] * m)), "num_masters": m,
                              "nodes": nd}))
            if r.random() < 0.5:
                mx, my = r.choice(((1000, 500), (1000, 500), (1000, 0), (0, 0)))
                ex.append((2011, (r.randint(0, mx), r.randint(0, my))))
                if m > 1:
                    ex.append((2028, [(r.randint(0, mx), r.randint(0, my))
                                      for _ in range(m - 1)]))
        if self.has("origin", 0.5):
            ex.append((2027, r.choice(({"x": 0, "y": 0}, {"x": self.c(), "y": -7}))))
        if self.has("unicodes", 0.7):
            u = [r.choice((65 + i, 0x20 + r.randrange(90), r.randint(0xA0, 0xFFFF)))
                 for _ in range(self.many("unicodes", r.choice((1, 1, 1, 2, 3)), 20))]
            ex.append((1250, list(dict.fromkeys(u))))
            if r.random() < 0.2:
                ex.append((1253, r.sample((0x10000, 0x1F600, 0x10FFFF, 0x1F1E6, 0x20000, 0xE0100),
                                          r.choice((1, 1, 2, 3)))))
        elif self.has("unicodes", 0.1):
            ex.append((1253, [r.randint(0x10000, 0x10FFFF)]))
        if self.has("mark", 0.3):
            ex.append((2012, r.choice((0, 1, 85, 128, 170, 254, 255, r.randrange(256)))))
        if self.has("customdata", 0.2):
            ex.append((2015, self.lines(20)))
        if self.has("note", 0.2):
            ex.append((2017, self.lines(20, False)))
        if self.has("anchors", 0.3):
            an, mm = [], []
            for _ in range(self.many("anchors", r.choice((0, 1, 1, 2, 3)), 15)):
                a = {}
                if r.random() < 0.9:
                    a["name"] = r.choice(("top", "bottom", "_top", "ogonek", self.text(6, False)))
                xs, ys = self.mm(self.c), self.mm(self.c)
                # the GDEF entry has the position in the first master
                a["x"], a["y"] = xs[0], ys[0]
                an.append(a)
                mm.append({"x": xs, "y": ys})
            gd = {}
            if r.random() < 0.5:
                gd["glyph_class"] = r.choice(("base", "ligature", "mark", "component"))
            if an:
                gd["anchors"] = an
            if r.random() < 0.2:
                gd["carets"] = [(self.c(), self.c())]
            ex.append((2018, gd))
            if an:
                ex.append((2020, [{"hue": r.randrange(360), "data": r.choice((0, 0, 5))} for _ in an]))
            if an and (m > 1 or r.random() < 0.3):
                ex.append((2029, mm))
        elif self.has("gdef", 0.2):
            ex.append((2018, {"glyph_class": "base"}))
        if g is not None and self.has("guideprops", 0.6):
            p = self.guide_props(g)
            if p["h"] or p["v"]:
                ex.append((2031, p))
        if r.random() < 0.1:
            ex += self.inert((2019, 2098, 2099))
        if r.random() < 0.15:
            # any order, but positions and code points of the same kind
            rank = {k: n for n, k in enumerate((1250, 1253, 2011, 2028))}
            same = iter(sorted((x for x in ex if x[0] in rank), key=lambda x: rank[x[0]]))
            r.shuffle(ex)
            ex = [next(same) if x[0] in rank else x for x in ex]
        return s, ex

    def asm(self):
        return self.r.choice((
            ["PUSHB[ ]", "3 2 1", "SRP0[ ]", "MDRP[01101]", "IUP[0]", "IUP[1]"],
            ["SVTCA[0]", "PUSHB[ ]", "0", "MDAP[1]", "IUP[1]"],
            ["PUSHB[ ]", "1", "IF[ ]", "IUP[0]", "ELSE[ ]", "IUP[1]", "EIF[ ]"],
            ["IUP[0]", "IUP[1]"],
        ))

    # -- font ----------------------------------------------------------------
    def stems_zones(self):
        r, out = self.r, []
        self.nstems = {"H": 0, "V": 0}
        self.nzones = {"T": 0, "B": 0}
        if not self.has("stems", 0.4):
            return out
        self.nstems = {d: self.many("stems", r.choice((0, 1, 2, 3)), 14) for d in "HV"}
        self.nzones = {d: self.many("stems", r.choice((0, 1, 2, 3)), 12) for d in "TB"}
        pool = [f"{k}{i}" for k in ("stem", "X: ", "Y: ", "lc-") for i in range(4)] + \
            ["a&b", "x<y", '"q"', "Stem 1", " s ", "it's"] + ["größe", "fût®"] * self.latin1
        if "stems" in self.big:
            pool += [f"s{i}" for i in range(130)]
        r.shuffle(pool)
        style = r.choice(("unique", "unique", "empty", "dup") if "stemnames" in self.focus
                         else ("unique",))

        def name():
            if style == "empty" and r.random() < 0.6:
                return ""
            if style == "dup" and r.random() < 0.6:
                return r.choice(("dup", "dup", "other"))
            return pool.pop()

        names = {d: [name() for _ in range(self.nstems[d])] for d in "VH"}
        ppms, stems, ppm1 = {}, {}, {}
        for d in "VH":
            k = "ttStems" + d
            ppms[k], stems[k], ppm1[k] = [], [], []
            for i in range(self.nstems[d]):
                ups = sorted(r.sample(range(1, 120), 6))
                if r.random() < 0.2:
                    j = r.randrange(5)
                    ups[j + 1] = ups[j]  # not more than one pixel width per size
                ppms[k].append({"stem": i, "round": dict(zip((2, 3, 4, 5), ups[1:5]))})
                stems[k].append({"value": r.randint(10, 200) if r.random() < (0.85 if names[d][i] else 0.5)
                                 else r.choice((0, 1, -20, 1000, 3000)), "name": names[d][i],
                                 "round": {6: ups[5]}})
                ppm1[k].append({"stem": i, "round": {1: ups[0]}})
        if "stemnames" in self.focus and r.random() < 0.25:
            if r.random() < 0.4:
                ppms = None
            else:
                ppms = {k: x[:r.randint(0, len(x))] for k, x in ppms.items()}
        out += [(1268, ppms)] * (ppms is not None) + [(1269, stems)]
        if r.random() < 0.8:
            out.append((1524, ppm1))
        zones, zi = {}, 0
        zpool = ["xheight", "capheight", "ascender", "baseline", "descender", "sup & inf", "o<p",
                 " z"] + ["überhang"] * self.latin1
        if "stems" in self.big:
            zpool += [f"zone {i}" for i in range(110)]
        r.shuffle(zpool)
        zstyle = r.choice(("unique", "unique", "empty", "dup") if "stemnames" in self.focus
                          else ("unique",))

        def zname():
            if zstyle == "empty" and r.random() < 0.6:
                return ""
            if zstyle == "dup" and r.random() < 0.6:
                return r.choice(("zone", "zone", "zone#1"))
            return zpool.pop()

        for d in "TB":
            zones["ttZones" + d] = [
                {"position": self.c(), "value": r.randint(0, 30), "name": zname()}
                for _ in range(self.nzones[d])
            ]
            zi += self.nzones[d]
        out.append((1255, zones))
        self.has_ppm1 = r.random()
        for eid, vals in ((1272, (68, 68, 0, 40)), (1274, (48, 48, 42, 0)), (1275, (0, 36, 255)),
                          (1604, (255, 255, 0, 200))):
            if r.random() < 0.6:
                out.append((eid, r.choice(vals)))
        if zi and r.random() < 0.7:
            d = {}
            for z in range(zi):
                if r.random() < 0.6:
                    d[z] = {p: r.choice((-8, 8, 4, 0, 1, -1, r.randint(-64, 64))) for p in
                            sorted(r.sample(range(8, 60), min(52, self.many("stems", r.randint(1, 4), 30))))}
            out.append((1273, d))
        return out

    def classes(self, names):
        """OpenType classes and the flags of kerning and metrics classes"""
        r = self.r
        cls, kflags, mflags = [], {}, {}
        if not self.has("classes", 0.3):
            return cls, kflags, mflags
        free = {1: list(dict.fromkeys(names)), 2: list(dict.fromkeys(names))}
        for s in free.values():
            r.shuffle(s)
        for k in range(self.many("classes", r.randint(0, 5), 25)):
            nm = f"_{r.choice(('A', 'O', 'round', 'kern'))}{k}"
            if "names" in self.big and r.random() < 0.2:
                nm += "_long" * r.choice((3, 14, 30))
            sides = r.choice(((1,), (2,), (1, 2), (1,), (2,)))
            if "unflagged" in self.focus and r.random() < 0.2:
                sides = ()
            pool = [g for g in free[1] if all(g in free[s] for s in sides)]
            if not pool:
                continue
            mem = pool[: self.many("classes", r.randint(1, 4), 40)]
            if not sides and r.random() < 0.3:
                nm = r.choice(("_.", "__", "_")) + f"x{k}"
            for s in sides:
                free[s] = [g for g in free[s] if g not in mem]
            key = r.choice(mem)
            if "badclasses" in self.focus and r.random() < 0.2:
                mem = mem + ["missing.glyph"]
            body = " ".join(g + "'" if g == key else g for g in mem)
            cls.append(f"{nm}: {body}")
            fl = sum({1: 1024, 2: 2048}[s] for s in sides)
            fl |= r.choice((0, 0, 0, 0, 1, 512, 4096, 0x8000, 0x12345 & ~0xC00))  # other flags
            if sides or r.random() < 0.3:
                kflags[nm] = (fl, r.choice((0, 0, 1)))
        for k in range(r.choice((0, 0, 1, 2))):
            mem = r.sample(names, r.randint(1, min(4, len(names))))
            mem = list(dict.fromkeys(mem))
            key = r.choice(mem)
            nm = f".mtrx{k}"
            cls.append(f"{nm}: " + " ".join(g + "'" if g == key else g for g in mem))
            mflags[nm] = (r.choice((1024, 2048, 3072, 3073, 0, 4096)), 0, r.choice((0, 0, 7)))
        for k in range(r.choice((0, 1, 2))):
            mem = list(dict.fromkeys(r.sample(names, r.randint(1, min(4, len(names))))))
            if r.random() < 0.15:
                mem = []
            cls.append(f"{r.choice(('case', 'smcp', 'ss'))}{k}:{r.choice((' ', ' ', '', '  '))}"
                       + r.choice((" ", " ", "  ")).join(mem))
        if "badclasses" in self.focus:
            def side(nm):
                kflags[nm] = (r.choice((1024, 2048, 3072)), 0)
                return nm

            if r.random() < 0.2:  # none of the glyphs exists
                cls.append(f"{side('_none')}: gone.1' gone.2")
            if r.random() < 0.2:
                cls.append("nothing: gone.1 gone.2")
            if r.random() < 0.2 and free[1] and free[2]:  # the key glyph doesn't exist
                g = r.choice([g for g in free[1] if g in free[2]] or ["gone.3"])
                cls.append(f"{side('_nokey')}: {g} gone.1'")
            if r.random() < 0.2:
                cls.append(r.choice(("no colon", "broken", "", f": {names[0]}", ":")))
            if r.random() < 0.2 and cls:  # second definition
                cls.append(r.choice(cls).split(":")[0] + ": " + r.choice(names))
            if r.random() < 0.2:  # the first one has no members
                cls += ["again:", "again: " + r.choice(names)]
            if r.random() < 0.3 and len(set(names)) > 2:  # two key glyphs
                mem = list(dict.fromkeys(names))
                mem = r.sample(mem, r.randint(2, min(4, len(mem))))
                cls.append(f"{side('_keys')}: " + " ".join(g + r.choice(("'", "'", "")) for g in mem))
            if r.random() < 0.2:  # duplicate members
                mem = r.choices(names, k=3) + r.choice(([], names[:1] * 2, ["gone.1"], ["gone.1", names[0], names[0]]))
                r.shuffle(mem)
                cls.append("twice: " + " ".join(mem))
            if r.random() < 0.2:  # in more than one class
                mem = list(dict.fromkeys(r.choices(names, k=3)))
                cls.append(f"{side('_over')}: {mem[0]}' " + " ".join(mem[1:]))
        r.shuffle(cls)
        return cls, kflags, mflags

    def features(self, cls, kflags):
        r = self.r
        names = [c.split(":")[0] for c in cls]
        k = [n for n in names if n.startswith("_")] or ["_none"]
        L = []
        for _ in range(self.many("features", r.randint(1, 8), 300)):
            a, b = "@" + r.choice(k), "@" + r.choice(k)
            L.append(r.choice((
                "feature liga {", "  sub f i by f_i;", "} liga;", "", "# a comment",
                "@CAPS = [A B C];", "languagesystem DFLT dflt;",
                f"  pos {a} {b} {r.randint(-99, 99)};",
                f"    pos A {b} -20; # {a} {b} 10",
                f"\tpos {a} V 0;",
                f"  enum pos A {b} -20;",
                f"  pos {a} {b} <0 0 -{r.randint(1, 50)} 0>;",
                f"  pos A B -{r.randint(1, 50)};#",
                f"# pos {a} {b} 10;",
                f"  pos {a} {b} 10; # first",
                "  pos [A B] C 20;",
            )))
        while L and not L[-1]:
            L.pop()
        return L

    def info(self):
        r, t = self.r, self.text
        out = []

        def put(eid, v, p=0.8):
            if self.r.random() < (0.95 if "info" in self.focus else p):
                out.append((eid, v))

        put(1517, r.choice(([1.0] + [0.0] * (self.m - 1), [1 / self.m] * self.m)))
        put(1044, r.choice((-1, 1234567, 0, 4000001, r.randint(-2**31, 2**31 - 1))))
        put(1046, t(6))
        for eid in (1038, 1025, 1027, 1024, 1056, 1092):
            put(eid, t(20))
        put(1028, t(8))
        put(1065, t(8))
        for eid in (1069, 1070, 1037, 1061, 1062, 1063, 1064, 1039):
            put(eid, t(30))
        put(1034, r.choice((0, 1, 0, 1, 2, 256)))
        put(1048, r.choice((0, 1, 400, 700, 1000, 1001, 250, 32767, -1, r.randint(0, 1100))))
        put(1029, self.num(0.0, -12.0, 9.5))
        put(1047, self.num(0.0, 8.5))
        put(1030, r.choice((r.randint(-200, 50), r.randint(-2000, 2000))))
        put(1031, r.choice((r.randint(0, 120), r.randint(0, 1500), r.randint(0, 65535))))
        put(1054, r.choice((0, 1, 177, r.randrange(256))))
        put(1118, [r.randrange(16) for _ in range(10)])
        for eid in (1128, 1129, 1127, 1137, 1139, 1140):
            put(eid, t(20))
        put(1121, r.choice(("LUC ", "iact", "ABCD", "XY  ", "    ", " A B", "&<>;")))
        put(1133, [r.choice((0, 0, 9)) for _ in range(20)])
        put(1134, r.choice((0, 1)))
        put(1132, r.choice((0, 1999, 2024, r.randint(1900, 2100))))
        put(1130, r.choice((r.randint(0, 99), r.randint(0, 9), r.randint(0, 40000))))
        put(1131, r.choice((r.randint(0, 999), r.randint(0, 9), r.randint(0, 65535))))
        put(1135, r.choice((1000, 2048, 1024, 16, 16384, 32767, r.randint(16, 16384))))
        put(1090, r.choice((128, 0, 4000, r.randint(0, 65535))))
        put(1068, [])
        self.blue_n = {}
        for eid, k, hi in ((1530, "blue_values", 14), (1531, "other_blues", 10),
                           (1532, "family_blues", 14), (1533, "family_other_blues", 10),
                           (1534, "stem_snap_h", 12), (1535, "stem_snap_v", 12)):
            n = r.choice((0, 2, hi, r.randrange(0, hi + 1, 2)))
            put(eid, n, 0.9)
        put(1267, sum(1 << b for b in r.sample((0, 1, 2, 3, 4, 5, 6, 7, 8, 9), r.randint(0, 3))))
        put(1060, r.choice((0, 0, 1, 255)))
        if r.random() < 0.5:
            ppem = sorted({8, 65535, *(r.randint(9, 200) for _ in range(r.choice((1, 1, 2, 7))))})
            out.append((1265, [{"maxPpem": p, "flags": r.randrange(16)} for p in
                               ppem[: r.randint(0, len(ppem))]]))
        if self.has("info", 0.7):
            out.append((1264, self.ttinfo()))
        put(1270, r.choice((r.randint(0, 300), r.randint(0, 65535))))
        put(1278, r.choice((r.randint(500, 1200), r.randint(-100, 3000))))
        put(1279, r.choice((-r.randint(0, 500), r.randint(-2000, 2000))))
        return out

    def ttinfo(self):
        r = self.r
        e = ref.Env(r)
        s, _ = ref.g_ttinfo(e)
        for k, v in list(s.items()):
            if k in ("os2_us_width_class",):
                s[k] = r.randint(1, 9)
            elif k == "head_flags":
                s[k]["flags"] = [b for b in v.get("flags", []) if b < 15]
            elif k == "os2_fs_type":
                s[k] = sum(1 << b for b in r.sample((1, 2, 3, 8, 9), r.randint(0, 2)))
            elif k == "os2_s_family_class":
                # (ufoLib doesn't save others)
                s[k] = r.randint(0, 13) << 8 | r.randrange(16)
                if "wide" in self.focus:
                    s[k] = r.choice((s[k], r.randrange(65536)))
            elif k == "head_creation":
                s[k] = r.choice((-494631304, -730152494, 0, 2082841200, 2082841199, -1, 1, -2**31,
                                 r.randint(-2**31, 2**31 - 1)))
            elif k.startswith("max_"):
                s[k] = r.choice((0, r.randint(0, 300)))
            elif isinstance(v, int):
                s[k] = r.randint(-500, 1500)
                if k in ("head_lowest_rec_ppem", "os2_us_win_ascent", "os2_us_win_descent"):
                    s[k] = r.choice((abs(s[k]), abs(s[k]), 0))
        return s

    def font_tables(self):
        """prep, fpgm, cvt of imported fonts"""
        r, out = self.r, []
        if self.has("programs", 0.15):
            vals = [r.randint(-2000, 2000) for _ in range(self.many("programs", r.randint(0, 8), 900))]
            out.append((1261, b"".join(ref.i16(v) for v in vals).hex()))
            self.cvt = vals
            if r.random() < 0.7:
                out.append((1262, bytes((0xB0, 5, 0x1D)).hex()))
            if r.random() < 0.7:
                out.append((1263, bytes((0xB0, 0, 0x2C, 0x20, 0x2D)).hex()))
        return out

    def mminfo(self):
        r, m, out = self.r, self.m, []
        out.append((271, ""))
        if self.naxes or r.random() < 0.7:
            out.append((1513, self.naxes))
        self.axis_names = r.sample(AXES, self.naxes)
        for a in self.axis_names:
            out.append((1514, a))
        counts, maps = [0] * 4, []
        if self.naxes:
            out.append((1523, [[(0, 0), (1000, 1000)] if r.random() < 0.85 else
                               [(k, r.randrange(0, 1001)) for k in (0, 250, 1000)]
                               for _ in range(self.naxes)]))
            for i in range(self.naxes):
                n = r.choice((2, 2, 3, 4, 10, 1)) if self.has("mappings", 0.8) else 0
                us = sorted(r.sample(range(0, 1001, 25), n))
                ds = sorted(r.sample([k / 1000 for k in range(0, 1001)], n))
                if r.random() < 0.4:
                    ds = [r.choice((d, d, d + 0.0005, r.randint(0, 2000) / 2000, r.random(),
                                    r.uniform(-0.5, 1.5))) for d in ds]
                if r.random() < 0.3:
                    us = [r.choice((u, u + 0.5, r.randint(-1000, 9000) / 8)) for u in us]
                if r.random() < 0.15:
                    r.shuffle(us)
                counts[i] = n
                row = [(float(u), d) for u, d in zip(us, ds)]
                maps += row + [(0.0, 0.0)] * (10 - n)
            maps += [(0.0, 0.0)] * (10 * (4 - self.naxes))
        else:
            out.append((1523, []))
            maps = [(0.0, 0.0)] * 40
        out += [(1515, counts), (1516, maps)]
        unnamed = r.random() < 0.06  # none of the masters has a name
        for i in range(m):
            nm = " ".join(f"{a[:2]}{i >> k & 1}" for k, a in enumerate(self.axis_names))
            if (self.has("masternames", 0.9) or i == 0) and not unnamed:
                nm = nm or "Untitled"
                nm = r.choice((nm, nm, nm.lower(), nm.upper(), "light  condensed", "Master 2", "m1"))
                out.append((1504, r.choice(("", "", " ")) + nm + r.choice(("", " "))))
            loc = [float(i >> k & 1) if k < self.naxes else 0.0 for k in range(4)]
            if r.random() < 0.2:
                loc = [v if v == 0 else r.choice((1.0, 0.75, 0.1255)) for v in loc]
            out.append((1505, (i + 1, tuple(loc))))
        if self.naxes and self.has("instances", 0.6):
            same = r.random() < 0.2
            L = [{"name": r.choice(("", "Bold", "Regular", "Semi Bold", " x ")) if same
                  else f"{self.text(8, False)} {k}",
                  "values": tuple(r.choice((float(r.randrange(0, 1001, 5)),
                                        r.randint(0, 10000000) / 10000, *((r.randint(-5000000, 30000000) / 10000,)
                                            if same else ()))) if j < self.naxes else 0.0
                                  for j in range(4))} for k in range(r.choice((0, 1, 2, 3, 4, 4, self.many("texts", 4, 70))))]
            out.append((1254, L))
        for i in range(m):
            out.append((1536, self.psinfo()))
        out.append((527, ""))
        return out

    def psinfo(self):
        r = self.r

        def zones(n):
            if r.random() < 0.1:
                return [0] * n
            return sorted(r.randint(-300, 900) for _ in range(n))

        s = {
            "font_matrix": (0.001, 0.0, r.choice((0.0, 0.0002)), 0.001, 0.0, 0.0),
            "force_bold": r.choice((0, 0, 1, 1, 2, -1, 256)),
            "blue_values": zones(14), "other_blues": zones(10), "family_blues": zones(14),
            "family_other_blues": zones(10),
            "blue_scale": r.choice((0.039625, 0.0375, 0.05, 0.0, r.random(), r.randint(0, 999999) / 1000000)), "blue_shift": r.choice((7, 5, 0, r.randint(0, 300))),
            "blue_fuzz": r.choice((1, 0, 2, r.randint(0, 300))), "std_hw": r.randint(10, 150),
            "std_vw": r.randint(10, 150),
            "stem_snap_h": [r.randint(10, 200) for _ in range(12)],
            "stem_snap_v": [r.randint(10, 200) for _ in range(12)],
            "bounding_box": {"xMin": -10, "yMin": -r.randrange(300), "xMax": 1000, "yMax": 900},
            "adv_width_min": r.randrange(300), "adv_width_max": r.randint(300, 1500),
            "adv_width_avg": r.randrange(900),
            "ascender": r.choice((0, r.randint(500, 1000), r.randint(-100, 3000))),
            "descender": r.choice((-r.randint(0, 400), r.randint(-2000, 300))),
            "x_height": r.choice((0, r.randint(300, 600), r.randint(-100, 3000))),
            "cap_height": r.choice((0, r.randint(500, 800), r.randint(-100, 3000))),
        }
        return s

    def inert(self, ids):
        """entries which say nothing about the font's glyphs, info or hinting"""
        r = self.r
        if r.random() < 0.7:
            return []
        e = ref.Env(r, self.m, self.platform)
        e.canon = True
        out = []
        for i in r.sample(ids, r.choice((1, 1, 2, len(ids)))):
            if ref.KIND.get(i, "hex") == "hex":
                out.append((i, bytes(r.randrange(256) for _ in range(r.choice((0, 1, 9)))).hex()))
            else:
                out.append((i, ref.GEN[ref.KIND[i]](e)[0]))
        return out

    def build(self):
        r = self.r
        names = self.names = self.glyph_names()
        head = [(1, ""), (4, "")]
        fl = ref.g_flversion(ref.Env(r, platform=self.platform))[0]
        head.append((10, fl))
        if self.n % 2:
            head.append((1093, {"generate_flex": 1, "other": [1 + self.n % 15]}))
        out = head + [(262, "")]
        if r.random() < 0.2:
            out += [(1500, (i, f"_{i:04d}")) for i in range(3)]
        out += [(1502, r.choice((1, 1, 0))), (518, ""), (257, ""), (1026, self.text(12)), (1503, self.m)]
        out += self.info()
        out += self.inert((1057, 1058, 1059, 7777))
        out += self.stems_zones()
        out += self.inert((1271, 1266, 1141, 1136, 2022, 2014, 1247))
        out += self.font_tables()
        if self.has("info", 0.4):
            out.append((2021, sorted(r.sample(range(128), r.choice((0, 1, 3, 6, 6, 100))))))
            out.append((1138, [
                (nid, pl, en, la, self.text(12)) for nid in r.sample((0, 1, 2, 4, 16, 25, 256, 300), r.randint(0, 4))
                for pl, en, la in (r.choice(((3, 1, 1033), (1, 0, 0), (3, 1, 1031), (3, 10, 0x411),
                                             (1, 1, 11), (3, 0, 1033), (0, 3, 0))),)
            ]))
        if self.has("fontnote", 0.4):
            out.append((2025, self.lines(30)))
        if self.has("fontcustom", 0.3):
            out.append((2016, self.lines(30)))
        cls, kflags, mflags = self.classes(names)
        if mflags:
            out.append((2024, mflags))
        if kflags:
            out.append((2026, kflags))
        if self.has("features", 0.4):
            out.append((1276, self.features(cls, kflags)))
        out += [(1277, c) for c in cls]
        out.append((513, ""))
        out += self.mminfo()
        if self.has("fontguides", 0.4):
            g = self.guides()
            out.append((1294, g))
            p = self.guide_props(g)
            if p["h"] or p["v"]:
                out.append((1296, p))
        if self.has("fontmask", 0.1):
            out.append((1295, {"num_masters": self.m, "nodes": self.nodes()}))
        out += self.inert((1410, 2030, 2032, 2034, 1743, 1744))
        if r.random() < 0.4:
            out.append((1066, r.choice(("", ".notdef", names[0]))))
        self.glyphs, self.weights = [], []
        for i, nm in enumerate(names):
            s, ex = self.glyph(i, nm)
            self.glyphs.append((s, ex))
        # components may also point forward: permute the glyphs
        order = list(range(self.n))
        if r.random() < 0.5:
            r.shuffle(order)
        new = {old: k for k, old in enumerate(order)}
        for old in order:
            s, ex = self.glyphs[old]
            for c in s.get("components", []):
                c["gid"] = new[c["gid"]]
            if "kerning" in s:
                s["kerning"] = {new[k]: v for k, v in s["kerning"].items()}
            out.append((2001, s))
            out += ex
        out += [(1742, {"mapping_mode": r.choice(("names_or_index", "unicode_ranges", "codepages")), "m2": 0,
                       "m3": r.choice((0, 1)), "mapping_id": r.choice((0, -1, 1252))}),
                (5, ""), (2, "")]
        return out


def compile_entries(entries, m, platform):
    """-> the bytes of a file with these entries"""
    v = Vfb(timing=False)
    v.num_masters = m
    v.writer_platform = platform
    v.encoding = "cp1252" if platform == "windows" else "utf-8"
    items = []
    for eid, data in entries:
        if eid == 1269:
            v.ttStemsV_count = len(data["ttStemsV"])
            v.ttStemsH_count = len(data["ttStemsH"])
        e = VfbEntry(v, eid=eid)
        if data == "" and ref.KIND.get(eid, "hex") == "hex":
            items.append((eid, b""))
            continue
        e.data = data
        e.compile()
        items.append((eid, e.data))
    return ref.container(items)


def gen(rng, **kw):
    """-> FontGen, entries, bytes of the file"""
    import copy

    g = FontGen(rng, **kw)
    entries = g.build()
    raw = compile_entries(copy.deepcopy(entries), g.m, g.platform)
    return g, entries, raw
