"""Nothing is lost silently while decoding."""
from vm import core, lib, ref
from vm.checks.b07 import damage

BUDGET = (15, 400)

# their size says how much there is: a prefix may be well-formed
OPEN = {"hex", "string", "doubles", "uint32s", "glyphenc", "vsb", "gasp", "uniranges",
        "unicodes", "unicodes32", "bintable", "features", "aniso", "axismap", "vendor"}
# trailing NUL bytes of strings are padding
PAD = {"string", "vendor"}


def run(ctx):
    ctx.rule = (
        "every entry type: (a) every strict prefix of valid bytes, (b) valid bytes followed "
        "by extra bytes, (c) damaged bytes; decoding must fail or account for all of the bytes; "
        "non-trivial when the bytes aren't those of a valid entry"
    )
    n = 0
    while ctx.more(n, 6):
        n += 1
        for eid in lib.BODY_IDS:
            if len(ctx.violations) > 20:
                return
            r = ctx.sub(eid, n)
            kind = ref.KIND[eid]
            e = lib.env(r)
            e.canon = True
            s, b = ref.entry(e, eid)
            what = f"entry {eid} ({kind})"
            pro = [(i, d) for i, _, d in lib.prologue(e)]
            v = lib.load(ref.container(pro + [(2, b"")]))

            def decode(data):
                x = lib.new_entry(v, eid, data)
                try:
                    x.decompile()
                except (MemoryError, RecursionError):
                    raise
                except Exception:
                    ctx.ev("refused")
                    return None
                ctx.ev("decoded")
                return x

            # (a)
            cuts = range(len(b)) if len(b) < 40 else sorted(r.sample(range(len(b)), 40))
            for c in cuts:
                x = decode(b[:c])
                ctx.case((eid, b[:c]))
                if x is None:
                    continue
                if kind not in OPEN:
                    ctx.violation(f"{what}: {c} of {len(b)} bytes are decoded without an error",
                                  bytes=b, cut=c, got=x.data)
                    break
                if kind in ("features",):
                    continue
                got = x.data
                x.compile()
                if x.data.rstrip(b"\0") != b[:c].rstrip(b"\0") if kind in PAD else x.data != b[:c]:
                    if kind == "uniranges" and int.from_bytes(x.data, "little") == int.from_bytes(b[:c], "little"):
                        continue
                    ctx.violation(f"{what}: the first {c} bytes decode to {core.short(got, 100)}, "
                                  f"which is {x.data.hex()[:200]}", bytes=b, cut=c)
                    break
            # (b)
            # (a negative count reads as 0)
            ext = b + bytes(r.choice((0x8B, 0x8C, 0, 1, 255)) for _ in range(r.randint(1, 3)))
            x = decode(ext)
            ctx.case((eid, ext))
            if x is not None:
                if kind not in OPEN:
                    ctx.violation(f"{what}: extra bytes after the end are ignored", bytes=ext, got=x.data)
                elif kind not in ("features", "uniranges"):
                    x.compile()
                    if x.data.strip(b"\0") != ext.strip(b"\0") if kind in PAD else x.data != ext:
                        ctx.violation(f"{what}: extra bytes are lost: {ext.hex()[-60:]} -> {x.data.hex()[-60:]}", bytes=ext)
            # (c) what was decoded from odd bytes and could be written is stable.
            # Colors beyond 24 bit and characters which don't exist have no stable form.
            for _ in range(2 if kind not in ("guideprops", "names") else 0):
                bad = damage(r, b)
                x = decode(bad)
                ctx.case((eid, bad))
                if x is None:
                    continue
                one = lib.canon_struct(eid, x.data)
                try:
                    x.compile()
                except Exception:
                    ctx.ev("refused to compile")
                    continue
                ok, _ = ctx.guard(f"{what}: decoding it again", x.decompile, detail={"bytes": bad, "content": one})
                if ok:
                    two = lib.canon_struct(eid, x.data)
                    if two != one:
                        ctx.violation(f"{what}: content isn't stable: {core.first_diff(two, one)}", bytes=bad)
                ctx.ev("odd bytes recompiled")
    ctx.sample({"rounds": n})
    ctx.require(refused=2000, decoded=300)
