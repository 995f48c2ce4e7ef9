"""Reading a file without some of its entries, or only its header."""
import io
from pathlib import Path

from vfbLib.vfb.vfb import Vfb

from vm import core, lib, ref

BUDGET = (12, 300)


def run(ctx):
    ctx.rule = (
        "generated and real files read with random sets of ids left out (context entries and the end "
        "marker too), or only the header, from paths and buffers: entries, their values, context and "
        "written bytes against the whole file; non-trivial when something was left out"
    )
    small = [p for p in lib.REAL if p.stat().st_size < 60000]
    n = 0
    path = Path("f.vfb")
    while ctx.more(n, 60):
        r = ctx.sub("f", n)
        n += 1
        k = r.random()
        if k < 0.2:
            raw = r.choice(small).read_bytes()
        else:
            e, items = lib.random_file(r, n=r.randint(1, 15), canon=True)
            if r.random() < 0.1:
                items = items[:-1]
            elif r.random() < 0.2:
                items = items + [(1024, "", b"behind")]
            raw = lib.pack(items)
        uni = r.random() < 0.25
        whole = lib.load(raw, unicode_strings=uni)
        ids = sorted({x.id for x in whole.entries})
        drop = {i for i in ids if r.random() < r.choice((0, 0.2, 0.5, 0.9))}
        if r.random() < 0.3:
            drop |= {r.randrange(1, 3000)}
        arg = set(drop)
        path.write_bytes(raw)
        at = f"file {n - 1} without {sorted(drop)}"

        def read():
            if r.random() < 0.5:
                v = Vfb(path, timing=False, drop_keys=arg, unicode_strings=uni)
            else:
                v = Vfb(timing=False, drop_keys=arg, unicode_strings=uni)
                v.read_bytes(io.BytesIO(raw))
            return v

        ok, v = ctx.guard(at, read, detail={"file": raw})
        if not ok:
            continue
        ctx.equal(arg, drop, f"{at}: the set was changed")
        if r.random() < 0.3:
            # the set belongs to the caller
            arg.clear()
            arg.update(ids)
            ctx.ev("changed sets")
        keep = [x for x in whole.entries if x.id not in drop]
        ctx.equal([x.id for x in v.entries], [x.id for x in keep], f"{at}: entries", file=raw)
        ctx.equal([v.num_masters, v.writer_platform, v.encoding, v.ttStemsV_count, v.ttStemsH_count],
                  [whole.num_masters, whole.writer_platform, whole.encoding, whole.ttStemsV_count,
                   whole.ttStemsH_count], f"{at}: context", file=raw)
        ok, out = ctx.guard(f"{at}: writing", lib.dump, v, detail={"file": raw})
        if ok:
            lib.dump(whole)
            want = raw[:44] if len(raw) >= 44 else raw
            want += b"".join(x.header + x.data for x in keep)
            ctx.equal(out.hex(), want.hex(), f"{at}: written file", file=raw)
        try:
            whole.decompile()
        except Exception:
            ctx.ev("files which can't be decoded")
            continue
        ok, _ = ctx.guard(f"{at}: decoding", v.decompile, detail={"file": raw})
        if not ok:
            continue
        for a, b in zip(v.entries, keep):
            ctx.expect(not isinstance(a.data, bytes) or isinstance(b.data, bytes),
                       f"{at}: entry {a.id} isn't decoded", file=raw)
            ctx.equal(core.jsonable(core.norm(a.data)), core.jsonable(core.norm(b.data)),
                      f"{at}: entry {a.id}", file=raw)
            ctx.ev("entries")
        ctx.ev("left out", len(whole.entries) - len(keep))
        ctx.ev("context entries left out", bool(drop & set(lib.CONTEXT_IDS)))
        ctx.case((raw, tuple(sorted(drop))), bool(drop & set(ids)))
        # read again with the same object: the same is left out
        ok, _ = ctx.guard(f"{at}: reading again", v.read_bytes, io.BytesIO(raw), detail={"file": raw})
        if ok:
            ctx.equal([x.id for x in v.entries], [x.id for x in keep],
                      f"{at}: entries when read again", file=raw)
        # entries which are kept, but not decoded
        some = {i for i in ids if r.random() < r.choice((0.1, 0.5))}
        v = lib.load(raw)
        v.drop_keys = some
        ok, _ = ctx.guard(f"{at}: decoding the rest", v.decompile, detail={"file": raw})
        if ok:
            for a, b, c in zip(v.entries, whole.entries, lib.load(raw).entries):
                b = c if b.id in some and isinstance(a.data, bytes) else b
                ctx.equal(core.jsonable(core.norm(a.data)), core.jsonable(core.norm(b.data)),
                          f"file {n - 1}, decoded without {sorted(some)}: entry {a.id}", file=raw)
                ctx.ev("entries decoded without others", a.id not in some)
        # the header only
        if r.random() < 0.5:
            cut = raw if r.random() < 0.5 else raw[:44] + r.randbytes(r.randint(0, 50))
            buf = io.BytesIO(cut)
            h = Vfb(timing=False, only_header=True)
            ok, _ = ctx.guard(f"header of file {n - 1}", h.read_bytes, buf, detail={"file": cut})
            if ok:
                ctx.equal(h.entries, [], f"header of file {n - 1}: entries", file=cut)
                ctx.equal(h.as_dict()["header"], whole.as_dict()["header"],
                          f"header of file {n - 1}", file=cut)
                ctx.expect(buf.tell() <= 44, f"header of file {n - 1}: read up to {buf.tell()}")
                ctx.ev("header only")
        if len(ctx.violations) > 8:
            return
    ctx.require(entries=300, **{"left out": 200, "context entries left out": 10, "header only": 15,
                                "changed sets": 10, "entries decoded without others": 100})
