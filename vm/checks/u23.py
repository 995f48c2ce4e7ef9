"""Kerning: what a layout engine finds for each pair."""
from vm import ufox

BUDGET = (12, 300)
GENS = [dict(focus=("kerning", "classes"), nglyphs=8), dict(focus=("kerning", "classes", "mm")),
        dict(focus=("kerning", "classes"), nglyphs=12), dict(focus=("kerning", "classes", "badclasses")),
        dict(focus=("kerning", "classes", "unflagged")), dict(focus=("kerning", "duplicates")), {}]


def lookup(pairs, g1, g2, L, R):
    """The value of a pair: exceptions win over class kerning."""
    a, b = g1.get(L), g2.get(R)
    for p in ((L, R), (L, b), (a, R), (a, b)):
        if None not in p and p in pairs:
            return pairs[p]
    return 0


def source_classes(src, side):
    """{glyph: class name}, {key glyph: class name}; None when the classes overlap"""
    flags = src.font.get(2026) or {}
    bit = {1: 1024, 2: 2048}[side]
    member, key = {}, {}
    seen = set()
    for line in src.multi[1277]:
        name, _, body = line.partition(":")
        if not name.startswith("_") or name in seen:
            continue
        seen.add(name)
        if name not in flags or not flags[name][0] & bit:
            continue
        glyphs = body.split()
        keys = [g[:-1] for g in glyphs if g.endswith("'")]
        names = [g.rstrip("'") for g in glyphs]
        for g in names:
            if member.setdefault(g, name) != name:
                return None
        if len(keys) != 1 or len(set(names)) != len(names):
            return None
        key[keys[0]] = name
    return member, key


def run(ctx):
    ctx.rule = (
        "every pair of glyphs of every master of real and generated fonts: value found by the UFO "
        "lookup rules in the kerning and groups of the master, against the value which the "
        "kerning of the source means (key glyphs stand for their class, others are exceptions)"
    )
    for label, src, v, raw in ufox.sources(ctx, 60, GENS):
        c1, c2 = source_classes(src, 1), source_classes(src, 2)
        r = ctx.sub("opt", label)
        opts = {"minimal": r.random() < 0.3, "add_kerning_groups": r.random() < 0.5,
                "move_groups": r.random() < 0.5}
        ok, res = ctx.guard(f"{label}: conversion", ufox.convert, v, **opts,
                            **ufox.spare(r, "pshints", "base64"), detail={"file": raw})
        if not ok:
            continue
        _, ufos, _ = res
        if c1 is None or c2 is None:
            # which class applies isn't clear, but all that is referred to exists
            for mi, u in enumerate(ufos):
                for pair in u.kerning:
                    for side, a in zip((1, 2), pair):
                        ctx.expect(u.groups.get(a) if a.startswith(f"public.kern{side}.") else a in u,
                                   f"{label}: master {mi}: pair {pair}: no {a}", file=raw)
            ctx.ev("fonts with overlapping classes")
            continue
        for mi in range(src.m):
            u = ufos[mi]
            order = ufox.order(u)
            g1 = {g: n for n, gs in u.groups.items() if n.startswith("public.kern1.") for g in gs}
            g2 = {g: n for n, gs in u.groups.items() if n.startswith("public.kern2.") for g in gs}
            got = dict(u.kerning)
            for a, b in got:
                ctx.expect(a in u.groups if a.startswith("public.kern") else a in u,
                           f"{label}: master {mi}: pair {a, b}: no {a}", file=raw)
                ctx.expect(b in u.groups if b.startswith("public.kern") else b in u,
                           f"{label}: master {mi}: pair {a, b}: no {b}", file=raw)
            want = {}
            lefts, rights = set(), set()
            for gi, g in enumerate(src.glyphs):
                for rid, vals in (g.s.get("kerning") or {}).items():
                    L, R = order[gi], order[int(rid)]
                    lefts.add(L)
                    rights.add(R)
                    want[c1[1].get(L) and "@" + c1[1][L] or L,
                         c2[1].get(R) and "@" + c2[1][R] or R] = vals[mi]
            s1 = {g: "@" + n for g, n in c1[0].items()}
            s2 = {g: "@" + n for g, n in c2[0].items()}
            # all pairs of small fonts; of large ones those which can have a value and some others
            allnames = list(order)
            if len(allnames) > 40:
                L_ = sorted({g for g in allnames if g in lefts or g in s1})
                R_ = sorted({g for g in allnames if g in rights or g in s2})
                L_ = r.sample(L_, min(60, len(L_))) + r.sample(allnames, 5)
                R_ = r.sample(R_, min(60, len(R_))) + r.sample(allnames, 5)
                todo = [(a, b) for a in L_ for b in R_]
                todo += [(order[gi], order[int(rid)]) for gi, g in enumerate(src.glyphs)
                         for rid in (g.s.get("kerning") or {})]
            else:
                todo = [(a, b) for a in allnames for b in allnames]
            for L, R in todo:
                x, y = lookup(got, g1, g2, L, R), lookup(want, s1, s2, L, R)
                if x != y:
                    ctx.violation(f"{label}: master {mi}: kerning of {L} {R} is {x}, expected {y}",
                                  file=raw, kerning={repr(k): w for k, w in got.items()},
                                  source={repr(k): w for k, w in want.items()})
                    break
                ctx.ev("pairs")
                if y:
                    ctx.ev("pairs with a value")
                    if (L, R) not in want:
                        ctx.ev("class pairs")
                elif (L, R) in want or (L, s2.get(R)) in want or (s1.get(L), R) in want:
                    ctx.ev("zero pairs and exceptions")
            ctx.case((label, ctx.seed, mi), bool(want))
        if len(ctx.violations) > 10:
            return
    ctx.require(**{"pairs": 5000, "pairs with a value": 500, "class pairs": 60,
                   "zero pairs and exceptions": 50})
