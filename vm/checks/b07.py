"""Entries which can't be decoded."""
import io

from vm import core, lib, ref

BUDGET = (15, 400)


def damage(r, b):
    k = r.randrange(5)
    if k == 0 and b:
        return b[: r.randrange(len(b))]
    if k == 1:
        return b + r.randbytes(r.randint(1, 4))
    if k == 2 and b:
        i = r.randrange(len(b))
        return b[:i] + r.randbytes(1) + b[i + 1 :]
    if k == 3 and b:
        i = r.randrange(len(b))
        return b[:i] + b[i + 1 :]
    i = r.randint(0, len(b))
    return b[:i] + r.randbytes(r.randint(1, 3)) + b[i:]


def run(ctx):
    ctx.rule = (
        "every entry type with damaged bytes (cut, extended, changed, removed and inserted "
        "bytes) between intact entries; a case is non-trivial when the library refuses "
        "to decode the damaged bytes"
    )
    ctx.assumptions = [
        "damage which yields a different but well-formed entry is outside of this property "
        "(see B09)"
    ]
    n = 0
    while ctx.more(n, 8):
        n += 1
        for eid in lib.BODY_IDS:
            r = ctx.sub(eid, n)
            e = lib.env(r)
            _, b = ref.entry(e, eid)
            bad = damage(r, b)
            if eid == ref.MMKERNPAIR:
                continue  # size isn't stored
            before = (1046, *ref.entry(e, 1046))
            after = (1502, *ref.entry(e, 1502))
            raw, k = lib.small_file(e, [(before[0], before[2]), (eid, bad), (after[0], after[2])])
            v = lib.load(raw)
            x = v.entries[k + 1]
            flag = v.any_errors
            try:
                x.decompile()
            except Exception as err:
                ctx.ev("refused")
                ctx.ev(type(err).__name__)
                what = f"damaged entry {eid} ({ref.KIND[eid]})"
                ctx.expect(flag is False or flag == 0, f"{what}: error flag set before decoding")
                if x.data != bad:
                    ctx.violation(f"{what}: its bytes were lost: {core.short(x.data, 200)}", bytes=bad)
                ctx.expect(bool(v.any_errors), f"{what}: any_errors isn't set")
                try:
                    v.decompile()
                except Exception:
                    pass
                else:
                    ctx.violation(f"{what}: Vfb.decompile doesn't fail", bytes=bad)
                ctx.expect(bool(v.any_errors), f"{what}: any_errors isn't set by Vfb.decompile")
                d = lib.content_diff(before[0], v.entries[k].data, before[1])
                ctx.expect(d is None, f"{what}: the entry before it: {d}")
                v.entries[k + 2].decompile()
                d = lib.content_diff(after[0], v.entries[k + 2].data, after[1])
                ctx.expect(d is None, f"{what}: the entry behind it: {d}")
                dd = v.as_dict()["entries"][k + 1]
                ctx.equal(dd.get("decompiled"), bad.hex(), f"{what}: as_dict")
                ok, out = ctx.guard(f"{what}: writing the file", lib.dump, v)
                if ok and out != raw:
                    ctx.violation(f"{what}: the written file differs", file=raw, got=out)
                # without the entry the file is fine
                if r.random() < 0.2:
                    del v.entries[k + 1]
                    ok, _ = ctx.guard(f"{what}: decoding the file without it", v.decompile)
                    if ok:
                        ctx.expect(not v.any_errors, f"{what}: the file still counts as damaged "
                                   "after it was decoded without the entry")
                        ctx.ev("damage removed")
                # a file without damage in the same process is fine
                if r.random() < 0.05:
                    v2, y = lib.one(e, eid, b)
                    ctx.guard(f"{what}: decoding an intact one afterwards", y.decompile)
                ctx.case((eid, bad))
                if ctx.events["refused"] <= 3:
                    ctx.sample({"id": eid, "damaged": bad.hex()[:200], "error": repr(err)[:100]})
            else:
                ctx.ev("well-formed after all")
                ctx.case((eid, bad), False)
            if len(ctx.violations) > 20:
                return
    ctx.require(refused=300, **{"damage removed": 30})
