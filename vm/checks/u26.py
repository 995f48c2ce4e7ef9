"""TrueType hinting: glyph commands, stems, zones, programs."""
import base64
import collections
import xml.etree.ElementTree as ET

from fontTools.pens.hashPointPen import HashPointPen
from fontTools.ttLib.tables.ttProgram import Program

from vm import ufox

BUDGET = (14, 300)
GENS = [dict(focus=("tth", "stems", "outlines")), dict(focus=("tth", "stems", "outlines", "mm")),
        dict(focus=("tth", "stems", "stemnames", "components", "outlines")),
        dict(focus=("programs", "instructions", "info")), dict(focus=("stems", "stemnames", "tth")),
        dict(focus=("tth", "outlines", "components", "hints", "duplicates")),
        dict(focus=("tth", "outlines", "hints", "hintmasks"), nglyphs=12, axes=0),
        dict(focus=("longtth", "tth", "outlines", "hints"), nglyphs=2, axes=0), {}]
CODES = {
    "AlignBottom": "alignb", "AlignTop": "alignt", "SingleLinkH": "singleh",
    "SingleLinkV": "singlev", "DoubleLinkH": "doubleh", "DoubleLinkV": "doublev",
    "AlignH": "alignh", "AlignV": "alignv", "InterpolateH": "interpolateh",
    "InterpolateV": "interpolatev", "MDeltaH": "mdeltah", "MDeltaV": "mdeltav",
    "FDeltaH": "fdeltah", "FDeltaV": "fdeltav",
}
ALIGN = {0: "round", 1: "left", 2: "right", 3: "center", 4: "double"}
DROP = {"stemsnaplimit": (1272, 68), "zoneppm": (1274, 48), "codeppm": (1275, None),
        "dropoutppm": (1604, 255)}
MAXP = {"max_zones": "maxZones", "max_twilight_points": "maxTwilightPoints",
        "max_storage": "maxStorage", "max_function_defs": "maxFunctionDefs",
        "max_instruction_defs": "maxInstructionDefs", "max_stack_elements": "maxStackElements"}
TTI = "public.truetype.instructions"


def stems(src):
    """{direction: [(width, {ppm: px}, name)]}"""
    out = {}
    ppms, main, one = (src.font.get(i) or {} for i in (1268, 1269, 1524))
    for d in "HV":
        k = "ttStems" + d
        L = []
        for i, s in enumerate(main.get(k, [])):
            px = {}
            for rec in [s] + [x for x in ppms.get(k, []) + one.get(k, []) if x["stem"] == i]:
                for n, ppm in rec["round"].items():
                    px[str(ppm)] = max(px.get(str(ppm), 0), int(n))
            L.append((s["value"], px, s["name"]))
        out[d] = L
    return out


def check_font(ctx, lib, src, at, raw):
    """-> {(direction, index): name}"""
    ctx.ev("fonts")
    tth = lib.get(ufox.TT_FONT, {})
    S = stems(src)
    have = dict(tth.get("stems", {}))
    names = {}
    n = sum(len(x) for x in S.values())
    ctx.expect(len(have) == n, f"{at}: {len(have)} stems, expected {n}", file=raw, lib=tth)
    # stems are written in order, H ones first; named ones keep their name if it's free
    order = list(have.items())
    for (d, i), (nm, s) in zip([(d, i) for d in "HV" for i in range(len(S[d]))], order):
        w, px, src_name = S[d][i]
        ctx.equal({k: s.get(k) for k in ("width", "horizontal", "round")},
                  {"width": w, "horizontal": d == "V", "round": px}, f"{at}: stem {d}{i} ({nm})",
                  file=raw)
        ctx.expect(nm, f"{at}: stem {d}{i} has no name", file=raw)
        if src_name and [x[2] for q in S.values() for x in q].count(src_name) == 1:
            ctx.expect(nm == src_name, f"{at}: stem {src_name!r} is named {nm!r}", file=raw)
        names[d, i] = nm
        ctx.ev("stems")
        if src_name != nm:
            ctx.ev("stems with made-up names")
    # zones
    z = src.font.get(1255) or {}
    zones, zorder = {}, []
    for d in "BT":
        for rec in z.get("ttZones" + d, []):
            if rec["name"] in zones:
                return None
            zones[rec["name"]] = {"position": rec["position"], "width": rec["value"],
                                  "top": d == "T"}
            zorder.append(rec["name"])
    for zi, ds in (src.font.get(1273) or {}).items():
        zones[zorder[int(zi)]]["delta"] = {str(k): v for k, v in ds.items()}
        ctx.ev("zone deltas")
    ctx.equal(tth.get("zones", {}), zones, f"{at}: zones", file=raw)
    ctx.ev("zones", len(zones))
    for k, (eid, default) in DROP.items():
        val = src.font.get(eid)
        got = tth.get(k)
        if val is None:
            ctx.expect(got is None, f"{at}: {k} = {got} isn't in the source", file=raw)
        else:
            ctx.expect((default if got is None else got) == val,
                       f"{at}: {k} = {got}, expected {val} (default {default})", file=raw)
    return names


def check_programs(ctx, lib, src, at, raw):
    tti = lib.get(TTI, {})
    info = src.font.get(1264) or {}
    for k, u in MAXP.items():
        ctx.expect((tti.get(u) or 0) == (info.get(k) or 0),
                   f"{at}: {u} = {tti.get(u)}, expected {info.get(k)}", file=raw)
    cvt = src.font.get(1261)
    want = {}
    if cvt:
        b = bytes.fromhex(cvt) if isinstance(cvt, str) else cvt
        want = {str(i): int.from_bytes(b[2 * i:2 * i + 2], "little", signed=True)
                for i in range(len(b) // 2)}
        ctx.ev("control values", len(want))
    ctx.equal(tti.get("controlValue", {}), want, f"{at}: control values", file=raw)
    for eid, k in ((1262, "controlValueProgram"), (1263, "fontProgram")):
        b = src.font.get(eid)
        if not b:
            ctx.expect(not tti.get(k), f"{at}: unexpected {k}", file=raw)
            continue
        b = bytes.fromhex(b) if isinstance(b, str) else b
        p = Program()
        p.fromAssembly(tti.get(k, "").split("\n"))
        ctx.expect(bytes(p.getBytecode()) == b, f"{at}: {k} differs: {tti.get(k)!r}", file=raw)
        ctx.ev("programs")


def places(g, nodes_of, mi):
    """{global point index: (x, y)} and the number of points"""
    return {i: p for i, p in enumerate(ufox.node_positions(g.nodes, mi))}


def run(ctx):
    ctx.rule = (
        "every glyph of every master of real and generated fonts: TrueType commands, and the points "
        "of the UFO glyph which they name, stems (and their references), zones, ppm limits, control "
        "values and programs, against the source"
    )
    for label, src, v, raw in ufox.sources(ctx, 40, GENS):
        r = ctx.sub("opt", label)
        b64 = r.random() < 0.3
        ok, res = ctx.guard(f"{label}: conversion", ufox.convert, v, pshints=r.random() < 0.5,
                            minimal=r.random() < 0.3, base64=b64,
                            **ufox.spare(r, "add_kerning_groups", "move_groups"), detail={"file": raw})
        if not ok:
            continue
        _, ufos, _ = res
        znames = {d: [x["name"] for x in (src.font.get(1255) or {}).get("ttZones" + d, [])]
                  for d in "TB"}
        for mi in range(src.m):
            u = ufos[mi]
            order = ufox.order(u)
            at = f"{label}: master {mi}"
            stem_names = check_font(ctx, u.lib, src, at, raw)
            check_programs(ctx, u.lib, src, at, raw)
            if stem_names is None:
                ctx.ev("fonts with ambiguous zones, not judged")
                continue
            for gi, g in enumerate(src.glyphs):
                at = f"{label}: glyph {gi} ({g.name}), master {mi}"
                ug = u[order[gi]]
                check_glyph_program(ctx, g, ug, u, at, raw)
                cmds = g.s.get("tth") or []
                data = ug.lib.get(ufox.TT_GLYPH)
                if data is None:
                    ctx.expect(not cmds, f"{at}: {len(cmds)} commands are missing", file=raw)
                    continue
                if b64:
                    if not ctx.expect(isinstance(data, bytes), f"{at}: not base64", file=raw):
                        continue
                    data = base64.b64decode(data).decode()
                ok, root = ctx.guard(f"{at}: XML of the commands", ET.fromstring, data,
                                     detail={"file": raw, "xml": data})
                if not ok:
                    continue
                got = [dict(c.attrib) for c in root]
                if not ctx.expect(len(got) == len(cmds) and root.tag == "ttProgram",
                                  f"{at}: {len(got)} commands, expected {len(cmds)}", file=raw):
                    continue
                check_commands(ctx, src, u, order, g, ug, mi, cmds, got, stem_names, znames, at, raw)
                ctx.case((label, ctx.seed, gi, mi))
                ctx.ev("glyph masters with commands")
                kinds = collections.Counter(c["code"] for c in got)
                ctx.ev("more than 99 commands of a kind", max(kinds.values(), default=0) > 99)
        if len(ctx.violations) > 10:
            return
    ctx.require(**{"commands": 300, "points": 400, "stems": 40, "zones": 40, "programs": 4,
                   "commands with a stem": 20, "commands with missing stems": 10, "glyph programs": 4, "more than 99 commands of a kind": 1, "commands in composites": 3,
                   "stems with made-up names": 5})


def bytecode(lines):
    p = Program()
    p.fromAssembly([s for s in lines if s.strip()])
    return bytes(p.getBytecode())


def check_glyph_program(ctx, g, ug, u, at, raw):
    ins = (g.s.get("imported") or {}).get("instructions")
    lib = ug.lib.get(TTI)
    if not ins:
        ctx.expect(lib is None, f"{at}: unexpected instructions", file=raw)
        return
    if not ctx.expect(lib is not None, f"{at}: instructions are missing", file=raw):
        return
    ok, code = ctx.guard(f"{at}: instructions can't be assembled", bytecode, lib["assembly"].split("\n"),
                         detail={"file": raw, "assembly": lib["assembly"]})
    if ok:
        ctx.expect(code == bytecode(ins), f"{at}: instructions {lib['assembly']!r}, expected {ins}",
                   file=raw)
    ctx.expect(str(lib.get("formatVersion")) == "1", f"{at}: the instructions have no version: {lib}",
               file=raw)
    # compilers only use the instructions when they belong to this outline
    pen = HashPointPen(ug.width, glyphSet=u)
    ug.drawPoints(pen)
    ctx.expect(lib.get("id") == pen.hash, f"{at}: the instructions have the id {lib.get('id')} "
               f"of another outline, expected {pen.hash}", file=raw)
    ctx.ev("glyph programs")


def resolve(src, u, order, g, gi_name, index, name, mi):
    """None when the name means the point (or it can't be judged), else what is wrong.
    -> (judged, problem)"""
    pos = ufox.node_positions(g.nodes, mi)
    if not g.comps:
        n = len(pos)
        if index >= n:
            want = {n: "lsb", n + 1: "rsb"}.get(index)
            return True, None if name == want or want is None else f"{name!r} != {want!r}"
        hits = ufox.named_points(u[gi_name]).get(name, [])
        if len(hits) != 1:
            return True, f"{len(hits)} points are named {name!r}"
        if hits[0][2] != pos[index]:
            return True, f"{name!r} is at {hits[0][2]}, not at {pos[index]}"
        # the node itself, when it is written
        cs = ufox.expected_contours(g.nodes, mi, True)
        for ci, c in enumerate(cs):
            for pi, (_, _, _, k) in enumerate(c):
                if k == index and hits[0][:2] != (ci, pi):
                    return True, f"{name!r} is point {hits[0][:2]}, not {ci, pi}"
        return True, None
    if g.nodes:
        return False, None
    i = index
    for ci, c in enumerate(g.comps):
        kid = src.glyphs[c["gid"]]
        if kid.comps:
            return False, None
        n = len(kid.nodes)
        if i < n:
            base, _, suffix = name.rpartition("-")
            if suffix != str(ci):
                return True, f"{name!r} isn't in component {ci}"
            return resolve(src, u, order, kid, order[c["gid"]], i, base, mi)
        i -= n
    want = {0: "lsb", 1: "rsb"}.get(i)
    return True, None if name == want or want is None else f"{name!r} != {want!r}"


def check_commands(ctx, src, u, order, g, ug, mi, cmds, got, stem_names, znames, at, raw):
    labels = collections.defaultdict(set)
    for k, (c, x) in enumerate(zip(cmds, got)):
        p = dict(c["params"])
        code = c["cmd"]
        bad = []
        want = {"code": CODES[code]}
        pts = {}
        if "pti" in p:
            pts["point"] = p["pti"]
        if "pt" in p:
            pts["point"] = p["pt"]
        for q in ("pt1", "pt2"):
            if q in p:
                pts["point" + q[-1]] = p[q]
        if "zone" in p:
            want["zone"] = znames["T" if code == "AlignTop" else "B"][p["zone"]]
        if "stem" in p:
            s = p["stem"]
            if s <= -2:
                want["round"] = "true"
            elif s >= 0:
                # the first stem stands in for missing ones
                d = code[-1]
                nm = stem_names.get((d, s), stem_names.get((d, 0)))
                if nm is not None:
                    want["stem"] = nm
                    ctx.ev("commands with a stem")
                if (d, s) not in stem_names:
                    ctx.ev("commands with missing stems")
        if p.get("align", -1) > -1:
            want["align"] = ALIGN.get(p["align"], "round")
        for a, b in (("shift", "delta"), ("ppm1", "ppm1"), ("ppm2", "ppm2")):
            if a in p:
                want[b] = str(p[a])
        rest = {a: b for a, b in x.items() if a not in ("point", "point1", "point2")}
        if rest != want:
            bad.append(f"{rest} != {want}")
        if set(x) - set(rest) != set(pts):
            bad.append(f"points {sorted(set(x) - set(rest))} != {sorted(pts)}")
        else:
            for a, i in pts.items():
                judged, problem = resolve(src, u, order, g, ug.name, i, x[a], mi)
                if problem:
                    bad.append(f"{a}: node {i}: {problem}")
                if judged:
                    ctx.ev("points")
                labels[x[a]].add(i)
        ctx.ev("commands")
        if g.comps:
            ctx.ev("commands in composites")
        if bad:
            ctx.violation(f"{at}: command {k} {c}: {'; '.join(bad)}", file=raw, got=x)
