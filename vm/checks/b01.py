"""Encoded integers."""
import io

from vfbLib.compilers.value import write_value, write_value_long
from vfbLib.parsers.value import read_value

from vm.ref import rdval, val

BUDGET = (12, 240)



def run(ctx):
    ctx.rule = (
        "every integer in a dense range and every distinct first byte with all second "
        "bytes, plus sampled 32 bit values (all powers of two, neighbours); a case is one "
        "value written and read back within a stream with other data around it"
    )
    r = ctx.rng
    lim = 70000 if ctx.quick else 1200000

    def enc(n, long=False, signed=True):
        out = io.BytesIO()
        (write_value_long if long else write_value)(n, out, signed)
        return out.getvalue()

    def check(n, signed=True):
        b = enc(n, signed=signed)
        ctx.ev("written")
        if b != val(n):
            ctx.violation(f"write_value({n}, signed={signed}) -> {b.hex()}, expected {val(n).hex()}")
            return
        for data in (b, val(n, long=True)):
            s = io.BytesIO(data + b"\x8b\xff")
            got = read_value(s, signed)
            ctx.ev("read")
            if got != n or s.tell() != len(data):
                ctx.violation(
                    f"read_value({data.hex()}, signed={signed}) -> {got}, position {s.tell()}; "
                    f"expected {n}, {len(data)}"
                )
        lb = enc(n, True, signed)
        if lb != val(n, long=True):
            ctx.violation(f"write_value_long({n}, signed={signed}) -> {lb.hex()}")

    for n in range(-lim, lim + 1):
        check(n)
        if n >= 0 and n % 7 == 0:
            check(n, signed=False)
        ctx.case(("s", n))
        if n % 5000 == 0 and len(ctx.violations) > 20:
            return
    edge = set()
    for k in range(32):
        for d in range(-3, 4):
            edge |= {(1 << k) + d, -(1 << k) + d}
    for n in sorted(edge):
        if -(2**31) <= n < 2**31:
            check(n)
            ctx.case(("s", n))
        if 0 <= n < 2**32:
            check(n, signed=False)
            ctx.case(("u", n))
    # values which don't fit must not be written as something else
    for n in (2**31, -(2**31) - 1, 2**32, 2**40, -(2**40)):
        out = io.BytesIO()
        try:
            write_value(n, out)
        except Exception:
            ctx.ev("refused")
        else:
            ctx.violation(f"write_value({n}) did not fail: {out.getvalue().hex()}")
        ctx.case(("range", n))
    for n in (2**32, -2000, 2**40):
        out = io.BytesIO()
        try:
            write_value(n, out, False)
        except Exception:
            ctx.ev("refused")
        else:
            ctx.violation(f"write_value({n}, signed=False) did not fail")
    # every one and two byte code
    for c in range(256):
        for c2 in range(256):
            data = bytes([c, c2, 1, 2, 3, 7])
            for signed in (True, False):
                try:
                    want, pos = rdval(data, 0, signed)
                except (ValueError, IndexError):
                    want = None
                s = io.BytesIO(data)
                try:
                    got = read_value(s, signed)
                except (EOFError, ValueError):
                    got = None
                if got != want or (want is not None and s.tell() != pos):
                    ctx.violation(f"read_value({data.hex()}, signed={signed}) -> {got}, want {want}")
                ctx.ev("decoded codes")
    # incomplete values are never turned into numbers
    for data in (b"", b"\x00", b"\xf7", b"\xfa", b"\xfb", b"\xfe", b"\xff", b"\xff\0",
                 b"\xff\0\0", b"\xff\1\2\3"):
        try:
            got = read_value(io.BytesIO(data))
        except (EOFError, ValueError):
            ctx.ev("refused")
        else:
            ctx.violation(f"read_value of the incomplete {data.hex()!r} -> {got}")
    # sequences: the next value starts where the last one ended
    n = 0
    while ctx.more(n, 300, 0.8):
        n += 1
        xs = [r.choice((r.randint(-1200, 1200), r.randint(-(2**31), 2**31 - 1),
                        r.randint(-120, 120))) for _ in range(r.randint(1, 60))]
        out = io.BytesIO()
        ref = b""
        for x in xs:
            lg = r.random() < 0.2
            (write_value_long if lg else write_value)(x, out)
            ref += val(x, lg)
        ctx.equal(out.getvalue().hex(), ref.hex(), "sequence written")
        s = io.BytesIO(ref)
        got = []
        try:
            while True:
                got.append(read_value(s))
        except EOFError:
            pass
        ctx.equal(got, xs, "sequence read back")
        ctx.ev("sequences")
        ctx.case(ref)
    ctx.sample({"value": -1131, "short": val(-1131).hex(), "long": val(-1131, True).hex()})
    ctx.extra["dense_range"] = [-lim, lim]
    ctx.require(written=lim, read=lim, sequences=100, refused=10)
