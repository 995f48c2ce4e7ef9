"""Encoding: content <-> bytes."""
import copy

from vm import core, lib, ref

BUDGET = (20, 500)


def run(ctx):
    ctx.rule = (
        "for every entry id: compile the model's content and compare with the model's bytes, "
        "recompile decoded canonical and non-canonical bytes, and decode-encode-decode of "
        "every entry in the real files; non-trivial when the entry isn't empty"
    )
    ctx.assumptions = [
        "run-length encoded bitmaps have no canonical bytes: their encoding is decoded by "
        "the model and compared as pixels (see B10)"
    ]
    n = 0
    while ctx.more(n, 8):
        n += 1
        for eid in lib.ALL_IDS:
            if eid == ref.FILE_END:
                continue
            if len(ctx.violations) > 30:
                return
            r = ctx.sub(eid, n)
            kind = ref.KIND[eid]
            e = lib.env(r)
            e.canon = True
            s, b = ref.entry(e, eid)
            what = f"entry {eid} ({kind}, {e.m} masters, {e.platform})"
            pro = [(i, d) for i, _, d in lib.prologue(e, eid != ref.TTSTEMS)]
            ctxv = lib.load(ref.container(pro + [(2, b"")]))
            # 1. content -> bytes
            given = lib.lib_struct(eid, s)
            keep = copy.deepcopy(given)
            x = lib.new_entry(ctxv, eid, given)
            ok, res = ctx.guard(f"compiling {what}", x.compile, detail={"content": s})
            if not ok:
                continue
            ctx.expect(res is not False and isinstance(x.data, bytes), f"compiling {what} gave {core.short(x.data, 80)}")
            if kind not in ref.FREE_BYTES and x.data != b:
                ctx.violation(f"compiled {what}: {core.short(x.data.hex(), 300)} != {core.short(b.hex(), 300)}",
                              content=s, got=x.data, want=b)
                continue
            if given != keep:
                ctx.violation(f"compiling {what} changed the content it was given")
            ctx.ev("compiled from content")
            # 2. back again
            y = lib.new_entry(ctxv, eid, x.data)
            ok, _ = ctx.guard(f"decoding the compiled {what}", y.decompile, detail={"bytes": x.data})
            if ok:
                d = lib.content_diff(eid, y.data, s)
                if d:
                    ctx.violation(f"{what} compiled and decoded again: {d}", content=s, got=y.data)
            ctx.case((eid, b), len(b) > 0)
            # 3. non-canonical bytes keep their content, and settle
            e.canon = False
            s2, b2 = ref.entry(e, eid)
            z = lib.new_entry(ctxv, eid, b2)
            ok, _ = ctx.guard(f"decoding {what}", z.decompile, detail={"bytes": b2})
            if not ok:
                continue
            ok, _ = ctx.guard(f"recompiling {what}", z.compile, detail={"bytes": b2})
            if not ok:
                continue
            c1 = z.data
            ok, _ = ctx.guard(f"decoding the recompiled {what}", z.decompile, detail={"bytes": c1})
            if not ok:
                continue
            d = lib.content_diff(eid, z.data, s2)
            if d:
                ctx.violation(f"{what} recompiled: {d}", bytes=b2, recompiled=c1)
            z.compile()
            ctx.expect(z.data == c1, f"{what}: compiling twice gives different bytes", a=c1, b=z.data)
            ctx.ev("recompiled")
            ctx.case((eid, b2), len(b2) > 0)
    # real entries
    for p in lib.REAL:
        v = lib.load(p.read_bytes())
        for i, x in enumerate(v.entries):
            x.compile()
            raw = x.data
            if raw is None:
                continue
            ok, _ = ctx.guard(f"{p.name}, entry {i} ({x.id}): decoding", x.decompile)
            if not ok:
                continue
            one = copy.deepcopy(x.data)
            ok, _ = ctx.guard(f"{p.name}, entry {i} ({x.id}): compiling", x.compile)
            if not ok:
                continue
            ok, _ = ctx.guard(f"{p.name}, entry {i} ({x.id}): decoding again", x.decompile)
            if ok:
                ctx.equal(x.data, one, f"{p.name}, entry {i} ({x.id}) compiled and decoded")
            ctx.ev("real entries")
            ctx.case((x.id, raw), len(raw) > 0)
    ctx.sample({"ids": len(lib.ALL_IDS), "rounds": n})
    ctx.require(**{"compiled from content": 1000, "recompiled": 1000, "real entries": 2000})
