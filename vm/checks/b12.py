"""Files don't influence each other."""
import sys
import tempfile
import threading
from pathlib import Path

from vfbLib.vfb.vfb import Vfb

from vm import core, lib, ref

BUDGET = (15, 400)


def view(v):
    """Everything observable about a file, without decoding more of it"""
    return {
        "dict": core.jsonable(core.norm(v.as_dict())),
        "masters": v.num_masters,
        "platform": v.writer_platform,
        "stems": [v.ttStemsV_count, v.ttStemsH_count],
        "errors": bool(v.any_errors),
        "encoding": v.encoding,
    }


def hinting(v):
    """Which entry has the hinting options of the file"""
    return lib.where(v, v.ps_hinting_options)


def full(v):
    try:
        v.decompile()
    except Exception as e:
        return ["failed", type(e).__name__]
    out = view(v)
    out["names"] = list(v.keys())
    out["order"] = list(v.glyph_order)
    out["hinting options"] = hinting(v)
    glyphs = [v[k] for k in out["names"]]
    out["links"] = [lib.where(v, g.links_entry) for g in glyphs]
    out["glyph hinting options"] = [lib.where(v, g.ps_hinting_options) for g in glyphs]
    out["bytes"] = lib.dump(v).hex()
    return out


def spoil(o, seen=None):
    """Change everything mutable which can be reached from the object"""
    seen = {} if seen is None else seen
    if id(o) in seen:
        return 0
    seen[id(o)] = o  # keeps it alive
    n = 0
    if isinstance(o, dict):
        for x in list(o.values()):
            n += spoil(x, seen)
        o["spoiled"] = 1
        n += 1
    elif isinstance(o, list):
        for x in list(o):
            n += spoil(x, seen)
        o.append(4711)
        o[:] = o[::-1]
        n += 1
    elif isinstance(o, tuple):
        for x in o:
            n += spoil(x, seen)
    elif isinstance(o, set):
        o.update(range(3000))
        n += 1
    elif type(o).__module__.partition(".")[0] == "vfbLib" and hasattr(o, "__dict__"):
        for k, x in list(vars(o).items()):
            n += spoil(x, seen)
            if k.startswith("_") or k == "vfb" or isinstance(x, type):
                continue
            if isinstance(x, (bool, int, str)):
                setattr(o, k, not x if isinstance(x, bool) else x * 2)
                n += 1
    return n


def run(ctx):
    ctx.rule = (
        "pairs and groups of generated and real files with different platforms, masters and "
        "stems: interleaved operations, several reads with one object, and threads (switch "
        "interval 1 µs); compared with each file alone; non-trivial when the files differ"
    )
    tmp = Path(tempfile.mkdtemp())
    small = [p for p in lib.REAL if p.stat().st_size < 60000]

    def pick(r):
        if r.random() < 0.2:
            return r.choice(small).read_bytes()
        e, items = lib.random_file(r, n=r.randint(1, 12))
        # links and options without a glyph are reported, not kept
        raw = lib.pack(items)
        if r.random() < 0.1:
            raw = lib.pack(items[:-1])
        if r.random() < 0.2:
            # without some of platform, number of masters and stems
            raw = lib.pack([x for x in items if x[0] not in lib.CONTEXT_IDS or r.random() < 0.5])
            ctx.ev("files without context")
        elif r.random() < 0.1:
            k = r.randrange(3, len(items) + 1)
            items = items[:k] + [(1502, "", b"\x01")] + items[k:]  # can't be decoded
            raw = lib.pack(items)
            ctx.ev("damaged files")
        return raw

    n = 0
    while ctx.more(n, 40, 0.4):
        r = ctx.sub("i", n)
        n += 1
        raws = [pick(r) for _ in range(r.randint(2, 4))]
        alone = [full(lib.load(x)) for x in raws]
        ctx.case(b"".join(raws), len(set(raws)) > 1)
        # 1. interleaved
        vs = [None] * len(raws)
        for step in range(r.randint(4, 30)):
            i = r.randrange(len(raws))
            if vs[i] is None:
                vs[i] = lib.load(raws[i])
                continue
            k = r.random()
            x = vs[i].entries[r.randrange(len(vs[i].entries))]
            try:
                if k < 0.6:
                    x.decompile()
                elif k < 0.8:
                    x.compile()
                elif k < 0.9:
                    list(vs[i].keys())
                else:
                    lib.dump(vs[i])
            except Exception:
                pass
            ctx.ev("interleaved operations")
        for i, v in enumerate(vs):
            if v is not None:
                v.compile()
                ctx.equal(full(v), alone[i], f"file {i} of {len(raws)}, interleaved with others")
                ctx.ev("compared")
        # 2. one object, several files
        v = Vfb(timing=False)
        paths = []
        for i, raw in enumerate(raws):
            p = tmp / f"{i}.vfb"
            p.write_bytes(raw)
            paths.append(p)
        order = [r.randrange(len(raws)) for _ in range(4)]
        for i in order:
            if r.random() < 0.5:
                v.vfb_path = paths[i]
                v.read()
            else:
                import io

                v.read_bytes(io.BytesIO(raws[i]))
            got = view(v)
            want = view(lib.load(raws[i]))
            ctx.equal(got, want, f"re-read object (files {order}), file {i}: after reading")
            ctx.equal(hinting(v), None, f"re-read object (files {order}), file {i}: hinting options "
                      "after reading")
            if r.random() < 0.7:
                ctx.equal(full(v), alone[i], f"re-read object (files {order}), file {i}")
            ctx.ev("re-reads")
        # 3. one file's content is changed by its owner
        vs = [lib.load(x) for x in raws]
        for i, v in enumerate(vs):
            if r.random() < 0.5:
                try:
                    v.decompile()
                except Exception:
                    pass
        bad = r.randrange(len(vs))
        ctx.ev("spoiled values", spoil(vs[bad]))
        for i, v in enumerate(vs):
            if i != bad:
                v.compile()
                ctx.equal(full(v), alone[i], f"file {i}, after file {bad} was changed")
            if i == bad or r.random() < 0.3:
                ctx.equal(full(lib.load(raws[i])), alone[i],
                          f"file {i}, read after file {bad} was changed")
            ctx.ev("beside a changed file")
        if n <= 1:
            ctx.sample({"files": [len(x) for x in raws], "order": order})
        if len(ctx.violations) > 8:
            return
    # 4. threads
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        m = 0
        while ctx.more(m, 8):
            r = ctx.sub("t", m)
            m += 1
            raws = [pick(r) for _ in range(5)]
            alone = [full(lib.load(x)) for x in raws]
            got = [None] * len(raws)
            gate = threading.Barrier(len(raws))

            def work(i):
                gate.wait()
                got[i] = [full(lib.load(raws[i])) for _ in range(3)]

            ts = [threading.Thread(target=work, args=(i,)) for i in range(len(raws))]
            [t.start() for t in ts]
            [t.join() for t in ts]
            for i in range(len(raws)):
                for g in got[i] or [None]:
                    ctx.equal(g, alone[i], f"file {i} read in a thread")
                    ctx.ev("threaded reads")
            ctx.case(b"".join(raws))
            if len(ctx.violations) > 8:
                return
    finally:
        sys.setswitchinterval(old)
    ctx.require(compared=60, **{"beside a changed file": 60, "re-reads": 100, "threaded reads": 100, "files without context": 20})
