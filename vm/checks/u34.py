"""Conversion options change what they are meant to change, and nothing else."""
import base64
import re

from vm import lib, ufox

BUDGET = (14, 300)
GENS = [dict(focus=("hints", "hintmasks", "links", "outlines", "tth", "stems")),
        dict(focus=("classes", "badclasses", "kerning", "features", "unflagged"), nglyphs=10),
        dict(focus=("mm", "mask", "guides", "guideprops", "note", "fontguides", "hints", "tth")),
        dict(focus=("programs", "instructions", "info", "image", "bitmaps", "mark", "fontnote")), {}]

PS_INFO = {"postscriptBlueFuzz", "postscriptBlueScale", "postscriptBlueShift",
           "postscriptForceBold", "postscriptBlueValues", "postscriptOtherBlues",
           "postscriptFamilyBlues", "postscriptFamilyOtherBlues", "postscriptStemSnapH",
           "postscriptStemSnapV"}


def pshints(a, b, path, x, y):
    """a: with, b: without"""
    if path[0] == "info":
        return path[1] in PS_INFO
    if path[0] == "glyphs":
        if path[3] == "lib":
            return path[4:5] == [ufox.PS_GLYPH] and y is None
        # a name for a hinted point
        return path[3] == "contours" and path[-1] == "2" and y is None and isinstance(x, str)
    return False


def b64(a, b, path, x, y):
    """a: plain, b: base64"""
    if path[0] == "glyphs" and path[3:] == ["lib", ufox.TT_GLYPH]:
        try:
            return isinstance(y, str) and y.startswith("bytes:") and \
                base64.b64decode(bytes.fromhex(y[6:]), validate=True).decode("utf-8") == x
        except ValueError:
            return False
    return False


def minimal(a, b, path, x, y):
    """a: full, b: minimal"""
    if path[0] == "glyphs":
        if path[1] == "public.background":
            return y is None
        return path[3] in ("note", "guidelines") and not y
    if path[0] == "layers":
        return True
    if path[0] == "info":
        return path[1] in ("guidelines", "note") and not y
    if path[0] in ("groups", "features"):
        return True  # judged by U24
    if path[0] == "kerning":
        return x is None or y is None  # classes without glyphs
    if path[0] == "lib":
        return path[1] in ("public.groupOrder", "com.lucasfonts.vfblib.groupKeyGlyphs")
    return False


def minimal_vfb(a, b, path, x, y):
    """a: full, b: minimal parsing and conversion"""
    if path[0] == "glyphs" and path[3:4] == ["lib"] and path[4:5]:
        return y is None and path[4] in ("public.markColor", "com.fontlab.v5.bitmaps",
                                         "com.fontlab.v5.background")
    return minimal(a, b, path, x, y)


def groups_only(a, b, path, x, y):
    return path[0] in ("features", "groups")


def added_fea(a, b, path, x, y):
    return path[0] == "features"


ALLOWED = {"pshints": pshints, "base64": b64, "minimal": minimal, "add_kerning_groups": added_fea,
           "move_groups": groups_only}
FLIP = {"pshints": False, "base64": True, "minimal": True, "add_kerning_groups": True,
        "move_groups": False}
CLASSLINE = re.compile(r"@([^ ]+) = \[([^\]]*)\];")


def split_path(p, dump):
    """/glyphs/layer/name/... where names may contain slashes"""
    parts = p.split("/")[1:]
    if parts[0] in ("glyphs",):
        layers = dump["glyphs"]
        rest = "/".join(parts[1:])
        for layer in layers:
            if rest == layer or rest.startswith(layer + "/"):
                rest = rest[len(layer) + 1:]
                best = max((n for n in layers[layer] if rest == n or rest.startswith(n + "/")),
                           key=len, default=None)
                if best is not None:
                    tail = rest[len(best) + 1:]
                    return ["glyphs", layer, best] + (tail.split("/") if tail else ["", ""])
                return ["glyphs", layer, rest, "", ""]
        return ["glyphs"] + parts[1:] + [""] * 4
    return parts + [""]


def fea_moved(ctx, at, a, b, opt, raw):
    """The feature code only differs by class definitions in front"""
    fa, fb = a["features"] or "", b["features"] or ""
    if fa == fb:
        return
    longer, shorter = (fb, fa) if opt == "add_kerning_groups" else (fa, fb)
    la, lb = longer.split("\n"), shorter.split("\n")
    k = len(la) - len(lb)
    extra = []
    i = j = 0
    while i < len(la):
        if j < len(lb) and la[i] == lb[j]:
            j += 1
        else:
            extra.append(la[i])
        i += 1
    ctx.expect(k == len(extra) and j == len(lb) and all(CLASSLINE.fullmatch(s) for s in extra),
               f"{at}: {extra[:3]!r}: only classes may be added to the features", file=raw)
    for s in extra:
        m = CLASSLINE.fullmatch(s)
        if not m:
            continue
        name, names = m.group(1), m.group(2).split()
        if opt == "add_kerning_groups":
            # a glyph can be in one group per side only, but in several classes
            side = name[:12]
            other = {g for k, x in b["groups"].items() if k[:12] == side and k != name for g in x}
            ctx.expect(name.startswith("public.kern") and
                       {g for g in names if g not in other or g in b["groups"].get(name, [])}
                       == set(b["groups"].get(name, [])),
                       f"{at}: class {name} [{' '.join(names)}], group {b['groups'].get(name)}",
                       file=raw)
        else:
            ctx.expect(not name.startswith("public.kern") and names == b["groups"].get(name)
                       and name not in a["groups"],
                       f"{at}: class {name} [{' '.join(names)}], group {b['groups'].get(name)}",
                       file=raw)
        ctx.ev("moved classes")


def groups_moved(ctx, at, a, b, opt, raw):
    if opt != "move_groups":
        return
    for k, g in a["groups"].items():
        ctx.equal(b["groups"].get(k), g, f"{at}: group {k}", file=raw)
    for k, g in b["groups"].items():
        if k not in a["groups"]:
            ctx.expect(f"@{k} = [{' '.join(g)}];" in (a["features"] or ""),
                       f"{at}: group {k} is neither a group nor in the features", file=raw)


def absent(ctx, at, opt, d, raw):
    """What the option leaves out isn't there"""
    for layer, glyphs in d["glyphs"].items():
        for n, g in glyphs.items():
            if opt == "pshints":
                ctx.expect(ufox.PS_GLYPH not in g["lib"], f"{at}: {n} has PostScript hints", file=raw)
            if opt == "minimal":
                ctx.expect(not g["note"] and not g["guidelines"], f"{at}: {n} has a note or guides",
                           file=raw)
            if opt == "parsing":
                for k in ("public.markColor", "com.fontlab.v5.bitmaps", "com.fontlab.v5.background"):
                    ctx.expect(k not in g["lib"], f"{at}: {n} has {k}", file=raw)
    if opt == "parsing":
        ctx.expect(not d["info"].get("note"), f"{at}: the font has a note", file=raw)
    if opt in ("minimal", "parsing"):
        ctx.equal(d["layers"], ["public.default"], f"{at}: layers", file=raw)
        ctx.expect(not d["info"].get("guidelines"), f"{at}: the font has guides", file=raw)
    if opt == "pshints":
        for k in PS_INFO:
            ctx.expect(not d["info"].get(k), f"{at}: {k} is {d['info'].get(k)!r}", file=raw)


def run(ctx):
    ctx.rule = (
        "real and generated fonts converted with a random set of options, and with one of them "
        "changed: every difference between the UFOs belongs to the changed option; what the option "
        "leaves out is absent; designspace unchanged"
    )
    opts = sorted(FLIP)
    for label, src, v, raw in ufox.sources(ctx, 20, GENS, quick_limit=40000):
        r = ctx.sub("opt", label)
        base = {o: FLIP[o] for o in opts if r.random() < 0.15}
        for opt in r.sample(opts, 2 if ctx.quick else 5):
            one = {k: x for k, x in base.items() if k != opt}
            two = dict(one, **{opt: FLIP[opt]})
            at = f"{label}: {opt}={FLIP[opt]} (others: {one})"
            ok, A = ctx.guard(f"{at}: conversion", ufox.convert, v, **one, detail={"file": raw})
            ok2, B = ctx.guard(f"{at}: conversion", ufox.convert, v, **two, detail={"file": raw})
            if not (ok and ok2):
                continue
            ctx.equal(ufox.dump_ds(B[2]), ufox.dump_ds(A[2]), f"{at}: designspace", file=raw)
            compare(ctx, at, opt, A[1], B[1], ALLOWED[opt], raw)
            ctx.case((label, ctx.seed, opt, tuple(sorted(one))))
            ctx.ev(opt)
        if r.random() < 0.3:
            v2 = lib.load(raw, minimal=True)
            v2.decompile()
            at = f"{label}: minimal parsing"
            ok, A = ctx.guard(f"{at}: conversion", ufox.convert, v, minimal=True, detail={"file": raw})
            ok2, B = ctx.guard(f"{at}: conversion", ufox.convert, v2, minimal=True,
                               detail={"file": raw})
            if ok and ok2:
                compare(ctx, at, "parsing", A[1], B[1], minimal_vfb, raw)
                ctx.ev("minimal parsing")
    ctx.require(**{o: 4 for o in opts}, **{"differences": 40, "minimal parsing": 2})


def compare(ctx, at, opt, ua, ub, allowed, raw):
    if not ctx.expect(len(ua) == len(ub), f"{at}: {len(ub)} masters, {len(ua)} before", file=raw):
        return
    for i, (x, y) in enumerate(zip(ua, ub)):
        a, b = ufox.dump(x), ufox.dump(y)
        for p, va, vb in ufox.differences(a, b, limit=100000):
            parts = split_path(p, {"glyphs": {
                k: dict(a["glyphs"].get(k, {}), **b["glyphs"].get(k, {}))
                for k in list(a["glyphs"]) + list(b["glyphs"])}})
            ctx.ev("differences")
            if not allowed(a, b, parts, va, vb):
                ctx.violation(f"{at}: master {i}: {p} changed from {va!r} to {vb!r}", file=raw)
                break
        if opt in ("add_kerning_groups", "move_groups"):
            fea_moved(ctx, at, a, b, opt, raw)
            groups_moved(ctx, at, a, b, opt, raw)
        absent(ctx, at, opt, b, raw)
