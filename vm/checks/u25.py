"""PostScript hints of the glyphs."""
import collections

from vm import ufox

BUDGET = (12, 300)
GENS = [dict(focus=("hints", "hintmasks", "links", "outlines")),
        dict(focus=("hints", "hintmasks", "links", "outlines", "mm")),
        dict(focus=("hints", "outlines", "mm"), without=("tth",)), dict(focus=("links", "outlines")),
        dict(focus=("hints", "hintmasks", "tth", "outlines")),
        dict(focus=("hints", "hintmasks", "components", "outlines", "mm")), {}]


def stem_of(pos, width, d):
    if width < 0 and width not in (-20, -21):
        pos, width = pos + width, -width
    return (d + "stem", pos, width)


def expected(g, mi, total=None):
    """[(node, {stems})] of the hint sets, None when the source isn't coherent.
    total: number of points of the components of a composite"""
    nodes = g.nodes
    total = len(nodes) if total is None else total
    h = g.s.get("hints") or {}
    stems = {"h": [], "v": []}
    for d in "hv":
        for per in h.get(d, []):
            stems[d].append(stem_of(per[mi]["pos"], per[mi]["width"], d))
    links = g.one(2008) or {"x": [], "y": []}
    for axis, (k, d) in {"x": (0, "v"), "y": (1, "h")}.items():
        for a, b in links.get(axis, []):
            if a >= len(nodes) or b >= len(nodes) or a < 0:
                return None
            p = nodes[a]["points"][mi][0][k]
            if b == -1:
                stems[d].append((d + "stem", p + 21, -21))
            elif b == -2:
                stems[d].append((d + "stem", p, -20))
            else:
                stems[d].append((d + "stem", p, nodes[b]["points"][mi][0][k] - p))
    masks = h.get("hintmasks") or []
    sets = collections.OrderedDict()
    if not masks:
        every = set(stems["h"]) | set(stems["v"])
        return [(0, every)] if every else []
    cur, at = set(), 0
    for d, i in list(masks) + [("r", None)]:
        if d == "r":
            if cur:
                sets[at] = cur
            cur = set()
            if i is not None:
                at = i if i >= 0 else -i - 1
                if at >= total:
                    return None
        elif i < len(stems[d]):
            cur.add(stems[d][i])
    return list(sets.items())


def composite(ctx, src, g, mi, lib, at, raw):
    """The stems of the hint sets; their tags name points of the components"""
    kids = [src.glyphs[c["gid"]] for c in g.comps]
    if any(k.comps for k in kids):
        return
    want = expected(g, mi, sum(len(k.nodes) for k in kids))
    if want is None or (want and not any(k.nodes for k in kids)):
        ctx.ev("incoherent glyphs, not judged")
        return
    sets = (lib or {}).get("hintSetList", [])
    got = collections.Counter(
        frozenset((a, float(b), float(c)) for a, b, c in (st.split() for st in s["stems"]))
        for s in sets)
    exp = collections.Counter(frozenset(x) for _, x in want)
    ctx.expect(got == exp, f"{at}: hint sets of the composite {sets}, expected {want}", file=raw)
    tags = [s["pointTag"] for s in sets]
    ctx.expect(len(set(tags)) == len(tags), f"{at}: several hint sets at one point: {tags}", file=raw)
    ctx.ev("hint sets of composites", len(sets))


def run(ctx):
    ctx.rule = (
        "every glyph of every master of real and generated fonts: hint sets (stems of the master, "
        "from hints and links) and the point that each one begins at, against the source; nothing "
        "of it without the option"
    )
    for label, src, v, raw in ufox.sources(ctx, 40, GENS):
        r = ctx.sub("opt", label)
        pshints = r.random() < 0.9
        ok, res = ctx.guard(f"{label}: conversion", ufox.convert, v, pshints=pshints,
                            minimal=r.random() < 0.3, base64=r.random() < 0.3,
                            **ufox.spare(r, "add_kerning_groups", "move_groups"), detail={"file": raw})
        if not ok:
            continue
        _, ufos, _ = res
        for mi in range(src.m):
            u = ufos[mi]
            order = ufox.order(u)
            for gi, g in enumerate(src.glyphs):
                at = f"{label}: glyph {gi} ({g.name}), master {mi}"
                ug = u[order[gi]]
                lib = ug.lib.get(ufox.PS_GLYPH)
                if not pshints:
                    ctx.expect(lib is None, f"{at}: hints in spite of pshints=False", file=raw)
                    ctx.case((label, ctx.seed, gi, mi), False)
                    continue
                # the points have the same names in all masters
                names0 = {k: [x[:2] for x in w] for k, w in
                          ufox.named_points(ufos[0][order[gi]]).items()}
                ctx.equal({k: [x[:2] for x in w] for k, w in ufox.named_points(ug).items()}, names0,
                          f"{at}: names of points, master 0 has others", file=raw)
                if g.comps and not g.nodes:
                    composite(ctx, src, g, mi, lib, at, raw)
                    ctx.case((label, ctx.seed, gi, mi), bool(lib))
                if g.comps or not g.nodes:
                    # the tag is looked up in the components, or there's no point
                    continue
                want = expected(g, mi)
                if want is None:
                    ctx.ev("incoherent glyphs, not judged")
                    continue
                if not want:
                    ctx.expect(not (lib or {}).get("hintSetList"), f"{at}: unexpected hints {lib}",
                               file=raw)
                    continue
                sets = (lib or {}).get("hintSetList", [])
                got = []
                for s in sets:
                    stems = []
                    for st in s["stems"]:
                        a, b, c = st.split()
                        stems.append((a, float(b), float(c)))
                    got.append((s["pointTag"], stems))
                # the last node of a contour which isn't written falls together with the first one
                merged = {}
                cs = ufox.expected_contours(g.nodes, mi, True)
                place = {k: (ci, pi) for ci, c in enumerate(cs) for pi, (_, _, _, k) in enumerate(c)
                         if k is not None}
                for ci, ks in enumerate(ufox.split_contours(g.nodes)):
                    for k in (ks[0], ks[-1]):
                        if k not in place:
                            place[k] = (ci, 0)
                            merged[k] = True
                keep = {}
                first_of = {place[ks[0]]: ks[0] for ks in ufox.split_contours(g.nodes)}
                for node, stems in want:
                    p = place[node]
                    if p in keep and keep[p][0] == first_of.get(p):
                        continue
                    if p in keep or p not in keep:
                        keep[p] = (node, stems)
                exp = {p: s for p, (_, s) in keep.items()}
                names = ufox.named_points(ug)
                have = {}
                bad = False
                for tag, stems in got:
                    w = names.get(tag, [])
                    if len(w) != 1:
                        ctx.violation(f"{at}: hint set at {tag!r}, which {len(w)} points are named",
                                      file=raw)
                        bad = True
                        break
                    if len(set(stems)) != len(stems):
                        ctx.violation(f"{at}: stems are repeated: {stems}", file=raw)
                    have.setdefault(w[0][:2], []).append(set(stems))
                if bad:
                    continue
                if not ctx.expect(all(len(x) == 1 for x in have.values()),
                                  f"{at}: several hint sets at one point", file=raw, lib=lib):
                    continue
                have = {p: x[0] for p, x in have.items()}
                if have != exp:
                    ctx.violation(f"{at}: hint sets {have}, expected {exp}", file=raw, lib=lib)
                ctx.case((label, ctx.seed, gi, mi), True)
                ctx.ev("glyph masters with hints")
                ctx.ev("hint sets", len(exp))
                ctx.ev("stems", sum(len(s) for s in exp.values()))
                if len(want) > 1:
                    ctx.ev("glyphs with hint replacement")
                if any(k in merged for k, _ in want):
                    ctx.ev("hint sets at nodes which coincide with the start")
        if len(ctx.violations) > 10:
            return
    ctx.require(**{"glyph masters with hints": 150, "hint sets": 200, "stems": 300,
                   "glyphs with hint replacement": 20, "hint sets of composites": 10,
                   "hint sets at nodes which coincide with the start": 1})
