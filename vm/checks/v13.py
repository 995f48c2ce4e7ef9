"""Glyphs are found by name."""
import copy

from vm import lib, ufox

BUDGET = (12, 240)
GENS = [dict(focus=("duplicates",), nglyphs=8), dict(focus=("duplicates", "links", "mm"), nglyphs=12),
        dict(focus=("links", "outlines"), nglyphs=5), dict(focus=("duplicates", "components"), nglyphs=3),
        {}]
OPTS = 2010


def layout(v):
    """[(glyph entry, links entry, options entry)]"""
    out = []
    for e in v.entries:
        if e.id == 2001:
            out.append([e, None, None])
        elif e.id == 2008 and out:
            out[-1][1] = e
        elif e.id == OPTS and out:
            out[-1][2] = e
    return out


def judge_keys(ctx, at, keys, names, raw):
    """one key per glyph; the first of a name keeps it, others are numbered"""
    if not ctx.expect(len(keys) == len(names) and len(set(keys)) == len(keys),
                      f"{at}: keys {keys}, glyphs {names}", file=raw):
        return False
    taken = set()
    for k, n in zip(keys, names):
        if n not in taken:
            ok = k == n
        else:
            i = 1
            while f"{n}#{i}" in taken:
                i += 1
            ok = k == f"{n}#{i}"
            ctx.ev("duplicate names")
        taken.add(k)
        if not ctx.expect(ok, f"{at}: glyph {n!r} has the key {k!r}", keys=keys, names=names, file=raw):
            return False
    return True


def broken(ctx, r, label, raw, names):
    """One glyph can't be decoded: no look-up may say that the later ones don't exist"""
    v = lib.load(raw)
    # a glyph, links, or hinting options
    gs = [e for e in v.entries if e.id in (2001, 2008, 1093, OPTS)]
    by = [[e for e in gs if e.id == i] for i in sorted({e.id for e in gs})]
    b = r.choice(r.choice(by))
    n = f"{v.entries.index(b)} (entry {b.id})"
    data = b.data
    if b.id != 2001:
        b.data = r.choice((b"\xff\x00", b"\x05\x8b", b"\xf7"))
        try:
            b.decompile()
        except Exception:
            ctx.ev("broken links or options")
        else:
            return
    elif r.random() < 0.5:
        b.data = data[:r.randrange(4, len(data))]
    else:
        b.data = b"\x01\x09\x07\x01" + b"\x00"
    todo = [("in", lambda k: k in v), ("get", lambda k: v[k]), ("keys", lambda k: list(v.keys())),
            ("items", lambda k: list(v.items())), ("masters", lambda k: k in v.get_masters()[0])]
    r.shuffle(todo)
    for kind, fn in todo:
        name = r.choice(names)
        try:
            got = fn(name)
        except KeyError as err:
            ctx.violation(f"{label}: entry {n} can't be decoded: {kind} {name!r}: {err!r}", file=raw)
        except Exception:
            ctx.ev("errors of files with a broken glyph")
        else:
            if kind in ("keys", "items"):
                ok = len(got) == len(names)
            else:
                ok = got is not False
            ctx.expect(ok, f"{label}: entry {n} can't be decoded: {kind} {name!r} yields {got}", file=raw)
    b.data = data
    ok, keys = ctx.guard(f"{label}: keys after the repair of a broken glyph", lambda: list(v.keys()))
    if ok:
        judge_keys(ctx, f"{label}: after the repair of a broken glyph", keys, names, raw)


def added(ctx, r, label, raw, names):
    """Glyphs which are added to the font are found like the others"""
    v = lib.load(raw)
    other = lib.load(raw)
    gs = [e for e in other.entries if e.id in (2001, 2008)]
    seen = r.random() < 0.7
    if seen:
        list(v.keys())
    want = list(names)
    objs = []
    for _ in range(r.randint(1, 3)):
        k = r.choice([i for i, e in enumerate(gs) if e.id == 2001])
        e = gs[k]
        new = type(e)(v)
        new.id = e.id
        new.data = e.data
        if r.random() < 0.5:
            e.decompile()
            new.data = copy.deepcopy(e.data)
            new.data["name"] = r.choice([names[0], "added.glyph", "added.glyph"])
        n = sum(1 for x in gs[:k] if x.id == 2001)
        want.append(new.data["name"] if isinstance(new.data, dict) else names[n])
        ok, _ = ctx.guard(f"{label}: add_entry", v.add_entry, new, detail={"file": raw})
        if not ok:
            return
        if k + 1 < len(gs) and gs[k + 1].id == 2008:
            if r.random() < 0.5:
                list(v.keys())
                ctx.ev("links added to a known glyph")
            ln = type(e)(v)
            ln.id, ln.data = 2008, gs[k + 1].data
            v.add_entry(ln)
        else:
            ln = None
        objs.append((new, ln))
        if r.random() < 0.5:
            ctx.expect(len(v.keys()) == len(want), f"{label}: {len(v.keys())} keys, "
                       f"{len(want)} glyphs after adding a glyph", file=raw)
    at = f"{label}: after adding glyphs"
    keys = list(v.keys())
    if judge_keys(ctx, at, keys, want, raw):
        ctx.equal(list(v.glyph_order), keys, f"{at}: glyph order", file=raw)
        for k, (e, ln) in zip(keys[len(names):], objs):
            ctx.expect(k in v and v[k].entry is e and v[k].links_entry is ln and e.vfb is v,
                       f"{at}: {k!r} isn't the added glyph with its links", file=raw)
            ctx.ev("added glyphs")


def run(ctx):
    ctx.rule = (
        "glyph access of real and generated fonts (many with duplicate names), before or after "
        "decoding, in random order of look-ups: keys, order, membership, entries, names, links, "
        "hinting options, number of contours, masters; again after glyphs were added"
    )
    for label, src, v0, raw in ufox.sources(ctx, 50, GENS):
        r = ctx.sub("acc", label)
        names = [g.name for g in src.glyphs]
        n_before = len(v0.entries)
        for mode in ("fresh", "decoded", "written"):
            v = lib.load(raw)
            if mode != "fresh":
                v.decompile()
            if mode == "written":
                if r.random() < 0.5:
                    list(v.keys())
                ok, _ = ctx.guard(f"{label}: writing", lib.dump, v, detail={"file": raw})
                if not ok:
                    break
            at = f"{label} ({mode})"
            L = layout(v)
            probe = r.choice(names) if names else "A"

            order = []

            def first(kind):
                if kind == "in":
                    return probe in v
                if kind == "get":
                    return v[probe] if names else None
                if kind == "keys":
                    return v.keys()
                if kind == "items":
                    return v.items()
                if kind == "order":
                    # a copy of what the first look-up yields
                    order.append(list((v if r.random() < 0.5 else v.get_masters()[0]).glyph_order))
                    return order
                if kind == "masters":
                    return [m[probe] for m in v.get_masters()] if names else None
                return v.getGlyphMaster(probe, 0) if names else None

            todo = ["in", "get", "keys", "items", "masters", "getmaster", "order"]
            r.shuffle(todo)
            good = True
            for k in todo:
                ok, _ = ctx.guard(f"{at}: {k}", first, k, detail={"file": raw})
                good &= ok
            if not good:
                break
            if mode == "written" and r.random() < 0.5:
                lib.dump(v)
            keys = list(v.keys())
            if not judge_keys(ctx, at, keys, names, raw):
                break
            ctx.equal(order[0], keys, f"{at}: glyph order, before or after the other look-ups", file=raw)
            ctx.ev("orders as first look-up", todo[0] == "order")
            ctx.equal(list(v.glyph_order), keys, f"{at}: glyph order", file=raw)
            ctx.equal([k for k, _ in v.items()], keys, f"{at}: keys of the items", file=raw)
            masters = v.get_masters()
            ctx.equal(len(masters), src.m, f"{at}: number of masters", file=raw)
            for m in masters:
                ctx.expect(list(m.keys()) == keys and [k for k, _ in m.items()] == keys
                           and m.num_masters == src.m and m.ps_hinting_options is v.ps_hinting_options
                           and m.info.unitsPerEm == v.info.unitsPerEm,
                           f"{at}: master {m.master_index} has other keys or options", file=raw)
            for i, (k, (e, links, opts)) in enumerate(zip(keys, L)):
                g = v[k]
                ctx.expect(g.entry is e, f"{at}: {k!r} isn't glyph {i}", file=raw)
                ctx.expect(dict(v.items())[k] is g if i < 5 else True,
                           f"{at}: the item of {k!r} is another glyph", file=raw)
                ctx.expect(g.name == names[i], f"{at}: glyph {k!r} is named {g.name!r}", file=raw)
                ctx.expect(k in v, f"{at}: {k!r} isn't in the font", file=raw)
                ctx.expect(g.links_entry is links, f"{at}: {k!r} has the links of another glyph"
                           if g.links_entry is not None else f"{at}: {k!r} has lost its links",
                           file=raw)
                if links is not None:
                    if mode == "written":
                        links.decompile()
                    ctx.equal(g.links_entry.data, src.glyphs[i].one(2008), f"{at}: links of {k!r}",
                              file=raw)
                    ctx.ev("links")
                ctx.expect(g.ps_hinting_options is opts, f"{at}: hinting options of {k!r}", file=raw)
                ctx.ev("hinting options", opts is not None)
                count = len(ufox.split_contours(src.glyphs[i].nodes))
                ctx.equal(len(g), count, f"{at}: number of contours of {k!r}", file=raw)
                for mi, m in enumerate(masters):
                    gm = m[k]
                    ctx.expect(gm.entry is e and gm.master_index == mi and gm.name == names[i]
                               and len(gm) == count and k in m and m.glyph_order == v.glyph_order,
                               f"{at}: master {mi} of {k!r}", file=raw)
                    ctx.ev("masters")
                ctx.case((label, ctx.seed, mode, i), True)
                ctx.ev("glyphs")
            for x in ("no such glyph", "", names[0] + "#99" if names else "#"):
                if x in keys:
                    continue
                ctx.expect(x not in v, f"{at}: {x!r} is in the font", file=raw)
                try:
                    v[x]
                    ctx.violation(f"{at}: glyph {x!r} was found", file=raw)
                except KeyError:
                    ctx.ev("unknown names")
            ctx.expect(len(v.entries) == n_before, f"{at}: number of entries", file=raw)
            fo = [e for e in v.entries if e.id == 1093]
            ctx.expect(v.ps_hinting_options is (fo[-1] if fo else None),
                       f"{at}: hinting options of the font", file=raw)
            ctx.equal(v.info.unitsPerEm, src.font.get(1135, 0), f"{at}: units per em", file=raw)
        if names and len(raw) < 60000:
            added(ctx, r, label, raw, names)
        if names and len(raw) < 60000:
            broken(ctx, r, label, raw, names)
    ctx.require(**{"duplicate names": 30, "glyphs": 400, "links": 40, "masters": 400,
                   "hinting options": 200,
                   "unknown names": 100, "added glyphs": 40, "orders as first look-up": 10, "errors of files with a broken glyph": 30,
                   "broken links or options": 20})
