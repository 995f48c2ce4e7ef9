"""Decoding of every entry type against the independent model."""
from vm import core, lib, ref

BUDGET = (15, 400)


def run(ctx):
    ctx.rule = (
        "for every one of the entry ids: random content and bytes from the model (1 to 16 "
        "masters, both platforms, shortest and long number forms, shuffled blocks), decoded "
        "by the library inside of a small file; non-trivial when the entry isn't empty"
    )
    r0 = 0
    per = {}
    while ctx.more(r0, 12):
        r0 += 1
        for eid in lib.ALL_IDS:
            if eid == ref.FILE_END:
                continue
            r = ctx.sub(eid, r0)
            e = lib.env(r)
            e.canon = r.random() < 0.4
            s, b = ref.entry(e, eid)
            if eid == ref.FLVERSION:
                raw = ref.container([(eid, b), (2, b"")])
                ok, v = ctx.guard("reading FL version", lib.load, raw)
                x = v.entries[0] if ok else None
            elif eid in (ref.MASTERCOUNT, ref.TTSTEMS):
                raw = ref.container([(ref.FLVERSION, ref.g_flversion(e)[1]), (eid, b), (2, b"")])
                ok, v = ctx.guard(f"reading {eid}", lib.load, raw)
                x = v.entries[1] if ok else None
            else:
                v, x = lib.one(e, eid, b)
                ok = True
            if not ok:
                continue
            ctx.equal(str(x.key), ref.NAMES.get(eid, str(eid)), f"name of entry {eid}")
            ok, _ = ctx.guard(
                f"decoding entry {eid} ({ref.KIND[eid]}, {e.m} masters, {e.platform})",
                x.decompile, detail={"bytes": b},
            )
            if not ok:
                continue
            d = lib.content_diff(eid, x.data, s)
            if d:
                ctx.violation(
                    f"entry {eid} ({ref.KIND[eid]}): decoded != model: {d}", bytes=b, got=x.data,
                    want=s, masters=e.m, platform=e.platform,
                )
            ctx.ev("decoded")
            ctx.ev("bytes decoded", len(b))
            per[eid] = per.get(eid, 0) + 1
            ctx.case((eid, b), len(b) > 0)
            if r0 == 1 and eid in (2001, 1536, 1743):
                ctx.sample({"id": eid, "bytes": b.hex()[:200]})
            if len(ctx.violations) > 30:
                return
    ctx.extra["entry_ids"] = len(per)
    ctx.extra["fewest_cases_per_id"] = min(per.values())
    ctx.require(decoded=140 * 10)
