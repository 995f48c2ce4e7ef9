"""Laziness: looking at the data never changes what is written."""
import copy
from pathlib import Path

from vfbLib.json import write_vfb_json

from vm import core, lib, ref

BUDGET = (15, 400)


def run(ctx):
    ctx.rule = (
        "random histories of decompile/compile/look-up/export/write calls on generated "
        "files in canonical form, and on real files; after each history the written bytes, "
        "the decoded content and the entry order are compared with the file's; "
        "non-trivial when the history decodes something"
    )
    n = 0
    while ctx.more(n, 60, 0.75 if ctx.quick else 0.9):
        r = ctx.sub("h", n)
        n += 1
        e, items = lib.random_file(r, n=r.randint(1, 18), ids=[i for i in lib.BODY_IDS if ref.KIND[i] not in ref.FREE_BYTES])
        raw = lib.pack(items, r.choice((3, 4)))
        v = lib.load(raw)
        hist = []
        hraw, hdec = ref.read_container(raw)[0], copy.deepcopy(v.header.data)
        decoded = [i in lib.CONTEXT_IDS for i, _, _ in items]
        for _ in range(r.randint(2, 25)):
            op = r.choice(("dec", "dec", "comp", "dec_all", "comp_all", "write", "dict", "json",
                           "keys", "get", "has", "size", "items", "masters"))
            k = r.randrange(len(items))
            hist.append((op, k))
            x = v.entries[k]

            def do():
                if op == "dec":
                    x.decompile()
                elif op == "comp":
                    x.compile()
                elif op == "dec_all":
                    v.decompile()
                elif op == "comp_all":
                    v.compile()
                elif op == "write":
                    out = lib.dump(v)
                    if out != raw:
                        ctx.violation(f"history {hist}: the written bytes differ", file=raw, got=out)
                    ctx.ev("writes")
                elif op == "dict":
                    d = v.as_dict()
                    ctx.equal(len(d["entries"]), len(items), "as_dict entries")
                    for y, q in zip(v.entries, d["entries"]):
                        want = y.data.hex() if isinstance(y.data, bytes) else y.data
                        if q["key"] != str(y.key) or core.jsonable(core.norm(q["decompiled"])) != \
                                core.jsonable(core.norm(want)):
                            ctx.violation(f"history {hist}: as_dict of entry {y.id}: {q}", file=raw)
                        if isinstance(y.data, bytes) and q.get("size") != len(y.data):
                            ctx.violation(f"history {hist}: as_dict size of entry {y.id}: {q}", file=raw)
                        ctx.ev("dict entries")
                elif op == "json":
                    write_vfb_json(v, Path("x.json"))
                elif op == "keys":
                    list(v.keys())
                elif op == "get":
                    for nm in list(v.keys())[:3]:
                        v[nm]
                elif op == "has":
                    "zzz" in v
                elif op == "items":
                    list(v.items())
                elif op == "masters":
                    [list(m.keys()) for m in v.get_masters()]
                elif op == "size":
                    if isinstance(x.data, bytes):
                        ctx.equal(x.size, len(x.data), f"history {hist}: size", file=raw)
                        ctx.equal(len(x.header), 4 if len(x.data) < 65536 else 6,
                                  f"history {hist}: length of the header", file=raw)
            if op in ("keys", "get", "has", "items", "masters"):
                # links and hinting options only make sense after a glyph
                seen = False
                bad = False
                for i, _, _ in items:
                    seen |= i == 2001
                    bad |= i in (2008, 2010) and not seen
                if bad:
                    ctx.ev("orphans")
            ok, _ = ctx.guard(f"history {hist}", do, detail={"file": raw})
            if not ok:
                break
            ctx.ev("operations")
            for j, (x, (i, s, b)) in enumerate(zip(v.entries, items)):
                if x.id != i:
                    ctx.violation(f"history {hist}: entry {j} has id {x.id}, not {i}", file=raw)
                elif isinstance(x.data, bytes):
                    if x.data != b:
                        ctx.violation(f"history {hist}: bytes of entry {j} ({i}) changed", file=raw, got=x.data, want=b)
                elif x.data is not None:
                    d = lib.content_diff(i, x.data, s)
                    if d:
                        ctx.violation(f"history {hist}: content of entry {j} ({i}): {d}", file=raw)
                ctx.ev("states observed")
            hd = v.header.data
            if isinstance(hd, bytes):
                ctx.expect(op != "dec_all" and hd == hraw, f"history {hist}: header {hd!r}", file=raw)
            else:
                ctx.expect(op != "comp_all", f"history {hist}: the header isn't compiled", file=raw)
                ctx.equal(hd, hdec, f"history {hist}: header", file=raw)
            ctx.ev("header states", isinstance(hd, bytes))
            if len(ctx.violations) > 10:
                return
        else:
            ctx.equal(len(v.entries), len(items), f"history {hist}: number of entries")
            ok, out = ctx.guard(f"history {hist}: final write", lib.dump, v)
            if ok and out != raw:
                ctx.violation(f"history {hist}: the finally written bytes differ", file=raw, got=out)
        ctx.case(repr(hist).encode() + raw, any(h[0] not in ("comp", "write", "size") for h in hist))
        if n <= 2:
            ctx.sample({"history": hist, "ids": [i for i, _, _ in items]})
    # real files: only what was decoded may change its bytes, never its content
    for p in lib.REAL:
        raw = p.read_bytes()
        if len(raw) > 400000 and ctx.quick and ctx.time_left() < 5:
            continue
        hdr, orig, _ = ref.read_container(raw)
        r = ctx.sub("real", p.name)
        v = lib.load(raw)
        touched = set()
        for _ in range(r.randint(1, 40)):
            k = r.randrange(len(v.entries))
            v.entries[k].decompile()
            touched.add(k)
            if r.random() < 0.3:
                v.entries[k].compile()
        out = lib.dump(v)
        _, now, _ = ref.read_container(out)
        ctx.equal([i for i, _ in now], [i for i, _ in orig], f"{p.name}: ids")
        for k, ((i, a), (_, b)) in enumerate(zip(orig, now)):
            if k not in touched:
                ctx.expect(a == b, f"{p.name}: untouched entry {k} ({i}) changed")
            ctx.ev("real entries")
        v1, v2 = lib.load(raw), lib.load(out)
        for k in sorted(touched):
            v1.entries[k].decompile()
            v2.entries[k].decompile()
            ctx.equal(v2.entries[k].data, v1.entries[k].data, f"{p.name}: content of entry {k}")
        ctx.case(p.name)
    ctx.require(writes=30, operations=500, **{"real entries": 2000})
