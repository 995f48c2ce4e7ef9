"""Container: an untouched file passes through byte by byte."""
import io
import tempfile
from pathlib import Path

from vfbLib.vfb.vfb import Vfb

from vm import lib, ref

BUDGET = (15, 400)

UNKNOWN = (3, 100, 999, 1999, 3000, 0x7FFF, 0, 1411)


class Pipe(io.BufferedIOBase):
    """A stream which can only be written from start to end"""

    def __init__(self):
        self.out = []

    def writable(self):
        return True

    def seekable(self):
        return False

    def seek(self, *_):
        raise io.UnsupportedOperation("seek")

    def tell(self):
        raise io.UnsupportedOperation("tell")

    def write(self, data):
        self.out.append(bytes(data))
        return len(data)


def run(ctx):
    ctx.rule = (
        "generated containers (random ids, known and unknown, sizes 0 to 200000, both "
        "length formats where the format allows, MMKernPair, all FL versions) and all real "
        "test files; non-trivial when at least one entry follows the prologue"
    )
    tmp = Path(tempfile.mkdtemp())
    stream_rng = ctx.sub("streams")

    def passthrough(raw, what, entries, hdr=44):
        src = tmp / "in.vfb"
        src.write_bytes(raw)
        ok, v = ctx.guard(f"reading {what}", Vfb, src, timing=False)
        if not ok:
            return
        got = []
        for e in v.entries:
            e.compile()  # context entries were decoded by the reader
            got.append((e.id, e.data or b""))
        ctx.equal([i for i, _ in got], [i for i, _ in entries], f"entry ids of {what}")
        if [d for _, d in got] != [d for _, d in entries]:
            k = next((i for i, (a, b) in enumerate(zip(got, entries)) if a != b), None)
            ctx.violation(f"{what}: the data of entry {k} differs from its bytes in the file")
        ctx.ev("entries read", len(got))
        want = raw[:hdr] + b"".join(ref.frame(i, d) for i, d in entries)
        for how in ("stream", "path"):
            v = Vfb(src, timing=False)
            if how == "path":
                dst = tmp / "out.vfb"
                ok, _ = ctx.guard(f"writing {what}", v.write, dst)
                out = dst.read_bytes() if ok else None
            else:
                ok, out = ctx.guard(f"writing {what}", lib.dump, v)
            if ok and out != want:
                k = next((i for i, (a, b) in enumerate(zip(out, want)) if a != b),
                         min(len(out), len(want)))
                ctx.violation(f"{what}: written file differs at byte {k} of {len(want)} "
                              f"(length {len(out)}), {how}", file=raw[:4000])
            ctx.ev("files written")
        # streams: behind other content and without random access; the file itself
        pre = b"\x2a" * 61
        how = stream_rng.choice(("prefix", "overwrite", "pipe", "same", "str"))

        def streams():
            if how in ("prefix", "overwrite"):
                v = lib.load(raw)
                o = io.BytesIO(pre if how == "prefix" else pre + b"\xff" * 7)
                o.seek(len(pre))
                v.write_bytes(o)
                head, body = o.getvalue()[:len(pre)], o.getvalue()[len(pre):]
                return body if head == pre else b"the content in front of it has changed"
            if how == "pipe":
                # (the header points to the first entry: reading needs random access)
                v = lib.load(raw)
                o = Pipe()
                v.write_bytes(o)
                return b"".join(o.out)
            same = tmp / "same.vfb"
            same.write_bytes(raw)
            v = Vfb(str(same) if how == "str" else same, timing=False)
            v.write(str(same) if how == "str" else same)
            return same.read_bytes()

        ok, got = ctx.guard(f"{how}: {what}", streams)
        if ok and got != want:
            ctx.violation(f"{what}, {how}: {len(got)} bytes instead of {len(want)}", file=raw[:4000])
        ctx.ev(f"streams: {how}")
        # twice through
        if ok:
            v2 = lib.load(out)
            ctx.equal(lib.dump(v2).hex() == out.hex(), True, f"{what}: second pass")

    for p in lib.REAL:
        raw = p.read_bytes()
        h, entries, rest = ref.read_container(raw)
        passthrough(raw, p.name, entries, len(h))
        ctx.case(p.name)
        ctx.ev("real files")
    n = 0
    while ctx.more(n, 120):
        r = ctx.sub("c", n)
        n += 1
        e = lib.env(r)
        pro = [(i, b) for i, _, b in lib.prologue(e, r.random() < 0.5)]
        if r.random() < 0.1:
            pro = []
            e.m = 0
        minor = r.choice((3, 4, 5))
        raw = b""
        entries = []
        for i, d in pro:
            raw += ref.frame(i, d)
            entries.append((i, d))
        for _ in range(r.randint(0, 30)):
            k = r.random()
            eid = r.choice(UNKNOWN) if k < 0.2 else r.choice(lib.BODY_IDS)
            if eid == ref.MMKERNPAIR:
                d = r.randbytes(8 + 2 * e.m)
                # the stored size of these isn't reliable
                raw += ref.u16(eid) + ref.u16(r.choice((0, 12, 4, len(d), len(d) + r.randint(1, 9))))
                raw += d
                entries.append((eid, d))
                ctx.ev("MMKernPair entries")
                continue
            size = r.choice((0, 0, 1, 2, 17, 255, 256, 300, r.randint(0, 2000)))
            if r.random() < 0.04:
                size = r.choice((65534, 65535, 65536, 65537, 70000, 131072, 200000))
                ctx.ev("entries around 64K")
            d = r.randbytes(size)
            raw += ref.frame(eid, d)
            entries.append((eid, d))
            if eid not in ref.KIND:
                ctx.ev("unknown ids")
        if r.random() < 0.85:
            d = b"" if r.random() < 0.6 else r.randbytes(r.choice((1, 2, 30)))
            raw += ref.frame(ref.FILE_END, d)
            entries.append((ref.FILE_END, d))
            if r.random() < 0.5:
                # none of this belongs to the font
                raw += r.choice((b"\0", r.randbytes(r.randint(1, 60)), ref.frame(1026, b"junk"),
                                 ref.frame(ref.FILE_END, b""), ref.frame(1026, b"x")[:-1]))
                ctx.ev("bytes behind the end marker")
        else:
            ctx.ev("no end marker")
        raw = ref.header(minor) + raw
        # MMKernPair headers are rewritten with the real size
        src_raw = raw
        passthrough(src_raw, f"container {n}", entries)
        ctx.case(raw, len(entries) > len(pro))
        if n < 3:
            ctx.sample({"ids": [i for i, _ in entries], "sizes": [len(d) for _, d in entries]})
    # entries stored with a 32 bit length although they are short
    r = ctx.sub("long")
    for _ in range(10):
        e = lib.env(r)
        d = r.randbytes(50)
        raw = ref.header() + ref.frame(1026, d, force_long=True) + ref.frame(1024, d[:3]) + ref.frame(2, b"")
        v = lib.load(raw)
        ctx.equal([(x.id, (x.data or b"").hex()) for x in v.entries],
                  [(1026, d.hex()), (1024, d[:3].hex()), (2, "")], "32 bit length of a short entry")
        ctx.case(raw)
    ctx.require(**{"real files": 20, "entries around 64K": 3, "unknown ids": 20,
                   "streams: prefix": 5, "streams: overwrite": 5, "streams: pipe": 5,
                   "streams: same": 5, "streams: str": 5, "MMKernPair entries": 3, "no end marker": 3, "bytes behind the end marker": 10})
