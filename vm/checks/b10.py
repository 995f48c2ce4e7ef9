"""Bitmaps."""


from vm import core, lib, ref

BUDGET = (15, 400)



def read_image(b, i, platform, w):
    n, i = ref.rdval(b, i, False)
    flat = ref.unrle(b[i : i + n])
    if platform == "windows":
        flat = [255 - x for x in flat]
    bpr = (w + 15) // 16 * 2
    return [flat[j : j + bpr] for j in range(0, len(flat), bpr or 1)], i + n


def model_decode(kind, b, platform):
    i = 0

    def v(signed=True):
        nonlocal i
        x, i = ref.rdval(b, i, signed)
        return x

    if kind == "image":
        s = {"origin": [v(), v()], "size_units": [v(False), v(False)], "size_pixels": [v(False), v(False)]}
        s["rows"], i = read_image(b, i, platform, s["size_pixels"][0])
        out = s
    else:
        out = []
        for _ in range(v()):
            s = {"ppm": v(), "origin": [v(), v()], "adv": [v(False), v(False)], "size_pixels": [v(False), v(False)]}
            s["rows"], i = read_image(b, i, platform, s["size_pixels"][0])
            out.append(s)
    if i != len(b):
        raise ValueError(f"{len(b) - i} bytes left")
    return out


def simple(kind, s):
    def one(d):
        d = dict(core.norm(d))
        d["rows"] = d.pop("bitmap")["data"]
        return d

    return one(s) if kind == "image" else [one(d) for d in s]


def shaped(r, w, h):
    """Rasters with runs of every length around the limits of the encoding"""
    bpr = (w + 15) // 16 * 2
    flat = []
    n = bpr * h
    while len(flat) < n:
        k = r.random()
        if k < 0.5:
            flat += [r.choice((0, 255, 1, 127, 128))] * r.choice((1, 2, 3, 127, 128, 129, 130, 255, 256, 257, 384, r.randint(1, 600)))
        else:
            flat += [r.randrange(256) for _ in range(r.choice((1, 2, 3, 126, 127, 128, 129, 256, 257)))]
    flat = flat[:n]
    return [flat[j : j + bpr] for j in range(0, n, bpr or 1)]


def run(ctx):
    ctx.rule = (
        "background images and glyph bitmaps of sizes 0 to 1200 pixels, rasters with run "
        "lengths around 1, 2, 3, 127-130, 255-257; both platforms; encoded by the library and "
        "decoded by the model and the other way round; non-trivial when the raster isn't constant"
    )
    n = 0
    while ctx.more(n, 150):
        r = ctx.sub("b", n)
        n += 1
        platform = ("macos", "windows")[n % 2]
        e = ref.Env(r, 1, platform)
        kind, eid = r.choice((("image", 2007), ("bitmaps", 2013)))
        w = r.choice((1, 7, 8, 9, 15, 16, 17, 31, 32, 33, r.randint(1, 200), r.choice((640, 1200))))
        h = r.choice((1, 2, 3, 17, r.randint(1, 60)))
        if w > 500:
            h = min(h, 12)
        if r.random() < 0.08:
            # nothing to see, like the bitmap of a space
            w, h = r.choice(((0, 0), (0, h), (w, 0)))
            ctx.ev("empty bitmaps")
        rows = shaped(r, w, h)

        def pic():
            return {"data": rows, "preview": ref.preview(rows, w)}

        if kind == "image":
            s = {"origin": (e.n(), e.n()), "size_units": (e.n(0), e.n(0)), "size_pixels": (w, h), "bitmap": pic()}
        else:
            s = [{"ppm": r.randint(0, 300), "origin": (e.n(), e.n()), "adv": (e.n(0), e.n(0)),
                  "size_pixels": (w, h), "bitmap": pic()} for _ in range(r.randint(0, 2))]
        v, _ = lib.one(e, 1026, b"")
        what = f"{kind} {w}x{h}, {platform}"
        # structure -> bytes, read by the model
        d = core.norm(s)
        if r.random() < 0.3:
            for x in d if kind == "bitmaps" else [d]:
                x["bitmap"].pop("preview")  # informative only
            ctx.ev("without preview")
        x = lib.new_entry(v, eid, d)
        ok, _ = ctx.guard(f"compiling {what}", x.compile, detail={"content": s})
        if ok:
            enc = x.data
            try:
                got = model_decode(kind, enc, platform)
            except Exception as err:
                ctx.violation(f"{what}: the encoded data can't be decoded: {err!r}", content=s, got=enc)
            else:
                ctx.equal(got, simple(kind, s), f"{what}: encoded", bytes=enc)
            ctx.ev("encoded")
            ok, _ = ctx.guard(f"decoding {what}", x.decompile, detail={"bytes": enc})
            if ok:
                ctx.equal(x.data, s, f"{what}: encoded and decoded")
            # size: no encoding is worse than literal chunks (1 byte per 128), plus fields
            raw = sum(len(row) for row in rows) * (1 if kind == "image" else len(s))
            ctx.expect(len(enc) <= raw + raw // 2 + 100, f"{what}: {raw} bytes grow to {len(enc)}")
        # bytes -> structure
        b = b""
        if kind == "image":
            b = b"".join(e.v(q) for k in ("origin", "size_units", "size_pixels") for q in s[k]) + ref.enc_raster(e, rows)
        else:
            b = e.v(len(s))
            for q in s:
                b += e.v(q["ppm"]) + b"".join(e.v(z) for k in ("origin", "adv", "size_pixels") for z in q[k])
                b += ref.enc_raster(e, rows)
        y = lib.new_entry(v, eid, b)
        ok, _ = ctx.guard(f"decoding {what}", y.decompile, detail={"bytes": b})
        if ok:
            ctx.equal(y.data, s, f"{what}: decoded", bytes=b)
        ctx.ev("decoded")
        ctx.case((eid, b), len({q for row in rows for q in row}) > 1)
        if n <= 2:
            ctx.sample({"what": what, "bytes": b.hex()[:120]})
        if len(ctx.violations) > 8:
            return
    ctx.require(encoded=100, decoded=100, **{"empty bitmaps": 5})
