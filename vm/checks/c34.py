"""yuri encodes and decodes numbers as they are stored in files."""
from vm import cli, core, ref

BUDGET = (10, 200)
EDGES = [0, 1, -1, 106, 107, 108, 109, -106, -107, -108, -109, 1130, 1131, 1132, -1130, -1131, -1132,
         363, 364, 619, 620, 875, 876, -363, -364, -620, -876, 32767, 32768, -32768, 65535, 65536,
         2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, -2 ** 31, 2 ** 24, -2 ** 24]


def numbers(r, signed):
    lo, hi = (-2 ** 31, 2 ** 31 - 1) if signed else (0, 2 ** 32 - 1)
    out = []
    for _ in range(r.randint(1, 12)):
        k = r.random()
        if k < 0.4:
            x = r.choice(EDGES)
        elif k < 0.8:
            x = r.randint(-1400, 1400)
        else:
            x = r.randint(lo, hi)
        # short negative numbers don't need a sign
        if lo <= x <= hi or -1131 <= x < 0:
            out.append(x)
    return out or [5]


def reference(b, signed):
    """numbers up to the first zero byte, whether the rest is broken"""
    out, i = [], 0
    while i < len(b) and b[i] != 0:
        try:
            x, i = ref.rdval(b, i, signed)
        except (ValueError, IndexError):
            return out, True
        out.append(x)
    return out, False


def spaced(r, h):
    """the hex string in one or several arguments, in any case"""
    h = "".join(c.upper() if r.random() < 0.3 else c for c in h) if r.random() < 0.5 else h
    k = r.random()
    if k < 0.4 or len(h) < 4:
        return [h]
    parts = [h[i:i + 2] for i in range(0, len(h), 2)]
    if k < 0.6:
        return parts
    if k < 0.8:
        return [" ".join(parts)]
    j = r.randrange(1, len(parts))
    return ["".join(parts[:j]), " ".join(parts[j:])]


def run(ctx):
    ctx.rule = (
        "numbers around all limits of the encoding and random ones, encoded in short and long form, "
        "signed and unsigned; valid, cut off and random byte strings decoded; against an "
        "independent codec"
    )
    n = 0
    every = list(range(-1200, 1201))
    while ctx.more(n, 300):
        r = ctx.sub("y", n)
        n += 1
        signed, long_ = r.random() < 0.5, r.random() < 0.4
        flags = ([r.choice(("-s", "--signed"))] if signed else []) + \
            ([r.choice(("-l", "--long"))] if long_ else [])
        if n <= 24:
            nums = every[(n - 1) * 100:n * 100 + 1]
            if not signed:
                nums = [x for x in nums if x >= -1131] or [0]
        else:
            nums = numbers(r, signed)
        if long_ and not signed:
            nums = [abs(x) for x in nums]
        res = cli.call("yuri", r.choice(("-e", "--encode")), *flags, *nums)
        at = f"yuri -e {' '.join(flags)} {core.short(nums, 100)}"
        want = b"".join(ref.val(x, long_) for x in nums)
        if ctx.expect(res.ok, f"{at}: {res.why}"):
            got = res.out.strip()
            ctx.expect(got.lower() == want.hex(), f"{at}: {got}, expected {want.hex()}")
        ctx.ev("encoded", len(nums))
        ctx.case(("e", tuple(flags), tuple(nums)))
        # and back
        args = spaced(r, want.hex())
        res = cli.call("yuri", *flags[:signed], *args)
        at = f"yuri {' '.join(flags[:signed])} {core.short(args, 100)}"
        if ctx.expect(res.ok, f"{at}: {res.why}"):
            exp = nums if not signed else [x if x < 2 ** 31 else x - 2 ** 32 for x in nums]
            if not signed:
                exp = [x if x >= -1131 else x + 2 ** 32 for x in nums]
            ctx.expect(res.out.split() == [str(x) for x in exp],
                       f"{at}: {core.short(res.out.split())}, expected {core.short(exp)}")
        ctx.ev("decoded", len(nums))
        # other bytes
        k = r.random()
        if k < 0.5:
            b = bytes(r.choice((r.randrange(32, 256), r.randrange(247, 256), 255)) for _ in
                      range(r.randint(1, 14)))
        elif k < 0.8:
            b = want[:r.randint(1, len(want))]
        else:
            b = bytes(r.randrange(256) for _ in range(r.randint(1, 10)))
        exp, bad = reference(b, signed)
        args = spaced(r, b.hex())
        res = cli.call("yuri", *flags[:signed], *args)
        at = f"yuri {' '.join(flags[:signed])} {args}"
        ctx.expect(res.out.split() == [str(x) for x in exp],
                   f"{at}: {res.out.split()}, expected {exp}")
        ctx.expect(res.ok != bad, f"{at}: broken: {bad}, result: {res.why or 'success'}")
        ctx.ev("broken strings", bad)
        ctx.ev("other strings")
        ctx.case(("d", signed, b))
        # numbers out of range, no numbers
        if r.random() < 0.2:
            x = r.choice((2 ** 32, 2 ** 40, -2 ** 31 - 1, 2 ** 31 if signed else 2 ** 33,
                          -2000 if not signed else -2 ** 33, "x", "1.5"))
            res = cli.call("yuri", "-e", *flags, x)
            ctx.expect(not res.ok and not res.out.strip(),
                       f"yuri -e {' '.join(flags)} {x}: {res.out!r}")
            x = r.choice(("8", "8b8", "zz", "8b0x"))
            res = cli.call("yuri", x)
            ctx.expect(not res.ok and not res.out.strip(), f"yuri {x}: {res.out!r}")
            ctx.ev("refused")
        if len(ctx.violations) > 10:
            return
    ctx.require(**{"encoded": 2400, "decoded": 2400, "broken strings": 60, "refused": 20})
