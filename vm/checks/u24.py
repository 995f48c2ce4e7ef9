"""Groups of the UFOs, classes in the features."""
from vm import ufox

BUDGET = (12, 300)
GENS = [dict(focus=("classes",), nglyphs=8), dict(focus=("classes", "badclasses"), nglyphs=10),
        dict(focus=("classes", "unflagged"), nglyphs=12), dict(focus=("classes", "mm")),
        dict(focus=("classes", "features", "badclasses"))]


def expected(src, order, minimal, add_kern, move):
    """groups, order of the groups, key glyphs, feature classes, whether all of it is clear, ..."""
    flags = src.font.get(2026) or {}
    groups, keys, owner = {}, {}, {1: {}, 2: {}}
    seen = set()
    unclear = set()  # groups whose key glyph isn't judged
    strict = True
    for line in src.multi[1277]:
        name, colon, body = line.partition(":")
        if not colon or not name or name in seen:
            continue  # malformed, or a second definition of the class
        seen.add(name)
        glyphs = body.split()
        ks = [g[:-1] for g in glyphs if g.endswith("'")]
        names = ks + [g for g in glyphs if not g.endswith("'")]
        missing = [g for g in names if g not in order]
        if minimal:
            names = [g for g in names if g in order]
        if missing and not names:
            continue
        finals = [name]
        if name.startswith("_"):
            fl = flags[name][0] if name in flags else 0
            finals = []
            for side, bit in ((1, 1024), (2, 2048)):
                if fl & bit:
                    finals.append(f"public.kern{side}.{name}")
                    for g in names:
                        # a glyph is only in one kerning group of a side
                        if owner[side].setdefault(g, name) != name:
                            strict = False
        if len(set(names)) != len(names) and name.startswith("_"):
            strict = False
        for f in finals:
            groups[f] = names
            # the first marked glyph that exists
            there = [g for g in ks if g in order]
            if there:
                keys[f] = there[0]
            elif ks and len(missing) >= len(names):
                unclear.add(f)
    fea = []
    out = dict(groups)
    for f, names in groups.items():
        if f.startswith("public.kern"):
            if add_kern:
                fea.append((f, names))
            continue
        if f.startswith("."):
            continue
        if move:
            fea.append((f, names))
            del out[f]
    for f, names in list(out.items()):
        if f.startswith("public.kern"):
            side = int(f[len("public.kern")])
            out[f] = [g for g in dict.fromkeys(names) if owner[side][g] == f.split(".", 2)[2]]
            if not out[f]:
                # a kerning group of no glyphs is no group
                del out[f]
                strict = False
    return out, list(groups), keys, fea, strict, unclear


def run(ctx):
    ctx.rule = (
        "groups.plist, group order, key glyphs and the classes in the feature code of every master "
        "of real and generated fonts with random options, against the classes of the source"
    )
    for label, src, v, raw in ufox.sources(ctx, 60, GENS):
        r = ctx.sub("opt", label)
        minimal, add, move = (r.random() < 0.5 for _ in range(3))
        ok, res = ctx.guard(f"{label}: conversion", ufox.convert, v, minimal=minimal,
                            add_kerning_groups=add, move_groups=move,
                            **ufox.spare(r, "pshints", "base64"), detail={"file": raw})
        if not ok:
            continue
        _, ufos, _ = res
        exp = expected(src, ufox.order(ufos[0]), minimal, add, move)
        groups, gorder, keys, fea, strict, unclear = exp
        for mi, u in enumerate(ufos):
            at = f"{label}: master {mi} (minimal={minimal}, add={add}, move={move})"
            ctx.equal({k: list(g) for k, g in u.groups.items()}, groups, f"{at}: groups", file=raw)
            if not strict:
                # what remains of overlapping groups beyond the groups themselves isn't clear
                ctx.ev("masters with overlapping kerning classes")
                continue
            ctx.equal(u.lib.get("public.groupOrder", []), gorder, f"{at}: group order", file=raw)
            have = u.lib.get("com.lucasfonts.vfblib.groupKeyGlyphs", {})
            ctx.equal({k: x for k, x in have.items() if k not in unclear}, keys,
                      f"{at}: key glyphs", file=raw)
            code = u.features.text
            n = len(fea)
            lines = code.split("\n")[:n]
            want = [f"@{f} = [{' '.join(names)}];" for f, names in fea]
            ctx.equal([" ".join(s.split()) for s in lines], want, f"{at}: classes in the features",
                      file=raw)
            rest = "\n".join(code.split("\n")[n:])
            have = "\n".join(src.font.get(1276) or [])
            for f in list(groups) + [f for f, _ in fea]:
                d = f"@{f} = ["
                if f"@{f} =" not in have:
                    ctx.expect(d not in rest, f"{at}: unexpected class {f} in the features", file=raw)
            ctx.case((label, ctx.seed, mi, minimal, add, move), bool(groups or fea))
            ctx.ev("groups", len(groups))
            ctx.ev("classes in the features", len(fea))
            ctx.ev("key glyphs", len(keys))
            ctx.ev("second definitions", len({x.partition(":")[0] for x in src.multi[1277]})
                   < len(src.multi[1277]))
            ctx.ev("malformed", any(not x.partition(":")[0] or ":" not in x for x in src.multi[1277]))
            ctx.ev("groups of missing glyphs with a key", len(unclear))
            ctx.ev("several glyphs marked as key", sum(
                x.count("'") > 1 for x in src.multi[1277] if ":" in x))
        if len(ctx.violations) > 10:
            return
    ctx.require(**{"groups": 150, "several glyphs marked as key": 1, "classes in the features": 100, "key glyphs": 100,
                   "masters with overlapping kerning classes": 3})
