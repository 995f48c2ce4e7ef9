"""Reading and decoding end, whatever the bytes are."""
import io
import resource
import struct

from vfbLib.vfb.vfb import Vfb

from vm import core, lib, ref
from vm.budget import OverBudget, Steps
from vm.checks.b07 import damage

BUDGET = (20, 500)


class Spy(io.BytesIO):
    """Counts the reads, and those at the end of the data"""

    reads = 0
    at_end = 0

    def read(self, n=-1):
        d = super().read(n)
        self.reads += 1
        if not d and n != 0:
            self.at_end += 1
            if self.at_end > 100:
                raise OverBudget("100 reads behind the end of the file")
        return d


def frames(raw):
    """The complete entries of the file; -> entries, incomplete last entry or None"""
    i = struct.unpack("<I", raw[8:12])[0]
    out = []
    nm = 0
    while i + 4 <= len(raw):
        (eid,) = struct.unpack("<H", raw[i : i + 2])
        if eid & 0x8000:
            if i + 6 > len(raw):
                return out, (eid & 0x7FFF, b"")
            (size,) = struct.unpack("<I", raw[i + 2 : i + 6])
            i += 6
        else:
            (size,) = struct.unpack("<H", raw[i + 2 : i + 4])
            i += 4
        eid &= 0x7FFF
        if eid == ref.MMKERNPAIR:
            size = 8 + 2 * nm
        d = raw[i : i + size]
        i += size
        if len(d) < size:
            return out, (eid, d)
        out.append((eid, d))
        if eid == ref.MASTERCOUNT and len(d) >= 2:
            nm = struct.unpack("<H", d[:2])[0]
        if eid == ref.FILE_END:
            break
    return out, None


def run(ctx):
    ctx.rule = (
        "files cut at any byte, files with changed, inserted and removed bytes, random bytes "
        "behind a valid header, huge counts and sizes inside of every entry type; monitored: "
        "reads behind the end, executed lines per byte, memory; "
        "non-trivial when the bytes aren't a valid file"
    )
    ctx.assumptions = ["bounded means: at most 500 executed lines per byte and 1.5 GB"]
    lim = 3 << 29
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))

    def read(raw, what):
        s = Spy(raw)
        v = Vfb(timing=False)
        try:
            with Steps(500 * (len(raw) + 200)) as st:
                v.read_bytes(s)
        except OverBudget as e:
            ctx.violation(f"{what}: reading doesn't end: {e}", file=raw[:100000])
            return
        except MemoryError:
            ctx.violation(f"{what}: reading exhausts the memory", file=raw[:100000])
            return
        except Exception as e:
            ctx.ev("file refused")
            ctx.ev(f"file refused: {type(e).__name__}")
            return
        ctx.ev("file read")
        ctx.ev("lines executed", st.count)
        try:
            full, part = frames(raw)
        except struct.error:
            return
        got = []
        for k, x in enumerate(v.entries):
            d = x.data
            if not isinstance(d, bytes):
                # decoded by the reader, and damaged bytes needn't be in canonical form
                if k < len(full):
                    d = full[k][1]
                elif part:
                    d = part[1]
            got.append((x.id, d or b""))
        if got[: len(full)] != full:
            k = next((i for i, (a, b) in enumerate(zip(got, full)) if a != b), min(len(got), len(full)))
            ctx.violation(f"{what}: entry {k} isn't the one in the file ({len(got)} read, {len(full)} there)", file=raw[:100000])
            return
        rest = got[len(full):]
        ok = not rest or (part is not None and len(rest) == 1 and rest[0][0] == part[0]
                          and part[1].startswith(rest[0][1]))
        ctx.expect(ok, f"{what}: entries were made up: {core.short(rest, 200)}", file=raw[:100000])

    n = 0
    while ctx.more(n, 100, 0.6):
        r = ctx.sub("f", n)
        n += 1
        e, items = lib.random_file(r, n=r.randint(0, 8), canon=True)
        if r.random() < 0.1:
            raw = lib.REAL[r.randrange(len(lib.REAL))].read_bytes()
            if len(raw) > 60000:
                raw = raw[: r.randint(0, 20000)]
        else:
            raw = lib.pack(items)
        k = r.random()
        if k < 0.4:
            raw = raw[: r.randint(0, len(raw))]
            what = "cut file"
        elif k < 0.7:
            h, body = raw[:44], raw[44:]
            for _ in range(r.randint(1, 4)):
                body = damage(r, body)
            raw = h + body
            what = "damaged file"
        elif k < 0.8:
            raw = raw[:44] + r.randbytes(r.randint(0, 300))
            what = "random bytes"
        elif k < 0.9:
            b = bytearray(raw)
            for _ in range(r.randint(1, 3)):
                b[r.randrange(min(44, len(b)))] = r.randrange(256)
            raw = bytes(b)
            what = "damaged header"
        else:
            raw = raw + r.randbytes(r.randint(1, 200))
            what = "bytes behind the end marker"
        read(raw, what)
        ctx.ev(what)
        ctx.case(raw)
        if n <= 2:
            ctx.sample({"kind": what, "bytes": len(raw)})
    HUGE = [b"\xff\x7f\xff\xff\xff", b"\xff\xff\xff\xff\xff", b"\xff\x80\0\0\0", b"\xff\x00\x7f\xff\xff",
            b"\xfa\xff", b"\xfe\xff"]
    m = 0
    while ctx.more(m, 3):
        m += 1
        for eid in lib.BODY_IDS:
            r = ctx.sub(eid, m)
            e = lib.env(r)
            _, b = ref.entry(e, eid)
            k = r.random()
            if k < 0.6 and b:
                i = r.randrange(min(len(b), r.choice((4, 20, 10**6))))
                h = r.choice(HUGE)
                b = b[:i] + h + b[i + r.choice((1, 1, 0, 5)):]
            elif k < 0.9:
                b = damage(r, b)
            else:
                b = r.randbytes(r.randint(0, 60))
            if len(b) > 60000 or eid == ref.MMKERNPAIR:
                continue
            v, x = lib.one(e, eid, b)
            try:
                with Steps(500 * (len(b) + 100)) as st:
                    x.decompile()
                ctx.ev("entry decoded")
            except OverBudget as o:
                ctx.violation(f"entry {eid} ({ref.KIND[eid]}) of {len(b)} bytes: {o}", bytes=b)
            except MemoryError:
                ctx.violation(f"entry {eid} ({ref.KIND[eid]}) of {len(b)} bytes: memory exhausted", bytes=b)
            except Exception:
                ctx.ev("entry refused")
            ctx.ev("lines executed", st.count)
            mx = ctx.extra.setdefault("most_lines_per_byte", 0)
            ctx.extra["most_lines_per_byte"] = max(mx, round(st.count / (len(b) + 100), 1))
            ctx.case((eid, b))
            if len(ctx.violations) > 10:
                return
    ctx.require(**{"file read": 50, "file refused": 10, "entry decoded": 100, "entry refused": 100,
                   "lines executed": 10000})
