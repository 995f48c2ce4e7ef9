"""vfb2json exports the whole content of a file."""
import json
import shutil
from pathlib import Path

from vm import cli, core, lib, ref, ufox

BUDGET = (14, 300)
FONTNAMES = next(i for i, k in ref.KIND.items() if k == "names")
STEMS = ("font.vfb", "My Font.vfb", "a.b.vfb", "FONT.VFB", "noext", "é.vfb")


def out_name(name):
    p = Path(name)
    return (p.stem if p.suffix else p.name) + ".vfb.json"


def content(eid, d):
    """comparable form of the content"""
    return cli.jsonish(lib.canon_struct(eid, d))



def header_of(raw):
    v = lib.load(raw)
    v.header.decompile()
    return cli.jsonish(core.norm(v.header.data))


def run(ctx):
    ctx.rule = (
        "real files, and generated ones with entries of all types, exported by the command line "
        "tool with all combinations of options: file name, header, and key and content of every "
        "entry against the file; truncated and broken files must not leave an output which looks "
        "complete"
    )
    n = 0
    real = list(ufox.real_fonts(ctx, 60_000))
    d = Path("w")
    while ctx.more(n, len(real) + 60):
        r = ctx.sub("f", n)
        if n < len(real):
            label, raw = real[n].name, real[n].read_bytes()
            v = lib.load(raw)
            v.decompile()
            want = [(e.id, e.data) for e in v.entries]
            _, data, _ = ref.read_container(raw)
            data = [b for _, b in data]
            canonical = False
        else:
            label = f"gen{n}"
            e, items = lib.random_file(r, n=r.randint(0, 25))
            raw = lib.pack(items, r.choice((3, 4)))
            want = [(i, s) for i, s, _ in items]
            data = [b for _, _, b in items]
            canonical = True
        real_file = n < len(real)
        n += 1
        d.mkdir()
        try:
            one(ctx, r, d, label, raw, want, data, canonical, not real_file and e.platform == "macos")
            if r.random() < 0.1:
                missing(ctx, r, d, label)
            if r.random() < 0.1:
                unwritable(ctx, r, d, label, raw)
            if r.random() < 0.4:
                broken(ctx, r, d, label, raw, data)
        finally:
            shutil.rmtree(d)
        if len(ctx.violations) > 10:
            return
    ctx.require(**{"entries": 1500, "hex entries": 300, "header only": 2, "other folder": 15,
                   "round trips": 20, "broken files": 15, "overwritten": 10, "missing files": 4, "names which JSON can't represent": 4})


def one(ctx, r, d, label, raw, want, data, canonical, mac):
    name = r.choice(STEMS)
    p = d / "in" / name
    p.parent.mkdir()
    p.write_bytes(raw)
    other = r.random() < 0.5
    (d / "out").mkdir()
    argv, opts = [], set()
    for o, names, prob in (("d", ("-d", "--no-decompile"), 0.25), ("h", ("--header",), 0.1),
                           ("r", ("-r", "--roundtrip"), 0.3),
                           ("u", ("-u", "--unicode-strings"), 0.2 if mac else 0), ("m", ("-m", "--minimal"), 0.2)):
        if r.random() < prob:
            opts.add(o)
            argv.append(r.choice(names))
    if other:
        argv += [r.choice(("-p", "--path")), str(d / "out")]
        ctx.ev("other folder")
    at = f"{label}: vfb2json {' '.join(argv)}"
    target = (d / "out" if other else d / "in") / out_name(name)
    if r.random() < 0.3:
        target.write_bytes(b"x" * 100_000)
        ctx.ev("overwritten")
    res = cli.call("vfb2json", *argv, p)
    if not ctx.expect(res.ok, f"{at}: {res.why}", file=raw):
        return
    t = cli.tree(d)
    ctx.expect(p.read_bytes() == raw, f"{at}: the input file was changed", file=raw)
    files = {"in", "out", str(p.relative_to(d)), str(target.relative_to(d))}
    if not ctx.expect(set(t) == files, f"{at}: files {sorted(t)}, expected {sorted(files)}", file=raw):
        return
    ok, j = ctx.guard(f"{at}: reading the output", json.loads, t[str(target.relative_to(d))],
                      detail={"file": raw})
    if not ok:
        return
    ctx.case((label, ctx.seed, at), True)
    if not ctx.expect(set(j) == {"header", "entries"}, f"{at}: keys {sorted(j)}", file=raw):
        return
    if not ctx.expect(isinstance(j["header"], dict), f"{at}: header {j['header']!r}", file=raw):
        return
    hd = j["header"].get("decompiled")
    if isinstance(hd, str):
        ctx.expect(hd == ref.read_container(raw)[0].hex(), f"{at}: header {hd}", file=raw)
    else:
        ctx.equal(hd, header_of(raw), f"{at}: header", file=raw)
    ctx.ev("headers")
    if "h" in opts:
        ctx.expect(not j["entries"], f"{at}: entries with --header", file=raw)
        ctx.ev("header only")
        return
    if not ctx.expect(len(j["entries"]) == len(want), f"{at}: {len(j['entries'])} entries, "
                      f"expected {len(want)}", file=raw):
        return
    keys = [str(e.key) for e in lib.load(raw).entries]
    from vfbLib.vfb.vfb import Vfb

    v = Vfb(timing=False)
    for k, (x, (eid, s), b) in enumerate(zip(j["entries"], want, data)):
        eat = f"{at}: entry {k} ({eid})"
        ctx.expect(x.get("key") == keys[k], f"{eat}: key {x.get('key')!r}", file=raw)
        if "d" in opts:
            ctx.ev("hex entries")
            if eid in lib.CONTEXT_IDS and "r" not in opts:
                # decoded when the file is read
                ctx.expect(content(eid, x["decompiled"]) == content(eid, s), f"{eat}: content",
                           file=raw)
                continue
            if not ctx.expect(isinstance(x.get("decompiled"), str) and "size" in x,
                              f"{eat}: not hexadecimal with -d: {core.short(x)}", file=raw):
                continue
            h = bytes.fromhex(x["decompiled"])
            ctx.expect(x["size"] == len(h), f"{eat}: size {x['size']}, {len(h)} bytes", file=raw)
            if "r" not in opts:
                ctx.expect(h == b, f"{eat}: other bytes than in the file", file=raw)
            elif canonical and ref.KIND.get(eid) not in ref.FREE_BYTES:
                ctx.expect(h == b, f"{eat}: compiled to other bytes", file=raw)
        else:
            got, exp = content(eid, x.get("decompiled")), content(eid, s)
            ctx.expect(got == exp, f"{eat}: {got != exp and core.first_diff(got, exp)}", file=raw)
            ctx.ev("entries")
    ctx.ev("round trips", "r" in opts)


def missing(ctx, r, d, label):
    """there is no such file, or it is a folder"""
    p = d / "none" / r.choice(STEMS)
    p.parent.mkdir()
    (d / "none" / "other.txt").write_bytes(b"x")
    if r.random() < 0.3:
        p.mkdir()
    before = cli.tree(d)
    argv = r.choice(([], ["-d"], ["--header"], ["-p", str(d)]))
    res = cli.call("vfb2json", *argv, p)
    ctx.expect(not res.ok, f"{label}: missing file: vfb2json {argv} reported success")
    ctx.equal(cli.tree(d), before, f"{label}: missing file: vfb2json {argv}: files")
    ctx.ev("missing files")


def unwritable(ctx, r, d, label, raw):
    """content which JSON can't represent: half of a surrogate pair in a name record"""
    v = ref.val
    codes = [65] * r.randint(0, 20) + [r.choice((0xD800, 0xDBFF, 0xDC00, 0xDFFF))]
    rec = v(1) + v(1) + v(3) + v(1) + v(1033) + v(len(codes)) + b"".join(map(v, codes))
    hdr, entries, _ = ref.read_container(raw)
    entries = list(entries)
    entries.insert(r.randint(0, len(entries) - 1), (FONTNAMES, rec))
    bad = hdr + b"".join(ref.frame(i, b) for i, b in entries)
    p = d / "surrogate.vfb"
    p.write_bytes(bad)
    target = d / "surrogate.vfb.json"
    old = r.choice((None, b"", b"old" * 100))
    if old is not None:
        target.write_bytes(old)
    res = cli.call("vfb2json", p)
    have = target.read_bytes() if target.exists() else None
    at = f"{label}, with a name which JSON can't represent: vfb2json"
    if res.ok:
        ok, j = ctx.guard(f"{at}: reading the output", lambda: json.loads(have), detail={"file": bad})
        if ok:
            ctx.expect(len(j["entries"]) == len(entries), f"{at}: {len(j['entries'])} entries", file=bad)
    else:
        ctx.expect(have == old, f"{at}: failed ({res.why}), but changed the output to "
                   f"{core.short(have)}", file=bad)
    ctx.ev("names which JSON can't represent")


def broken(ctx, r, d, label, raw, data):
    """cut off in the middle of an entry, or an entry which can't be decoded"""
    hdr, entries, _ = ref.read_container(raw)
    kind = r.choice(("cut", "bad"))
    if kind == "cut":
        # inside of the data of the last entry which has some
        ks = [k for k, (_, b) in enumerate(entries) if b]
        if not ks:
            return
        k = r.choice(ks)
        head = ref.container(entries[:k])[44:]
        full = ref.frame(*entries[k])
        bad = hdr + head + full[:len(full) - r.randint(1, len(entries[k][1]))]
        if entries[k][0] == ref.MMKERNPAIR:
            return
    else:
        # a string of values which ends too early
        k = r.randrange(len(entries) - 1) if len(entries) > 1 else 0
        entries = list(entries)
        ks = [k for k, (i, b) in enumerate(entries) if i in (2001, 2008, 2018, 1264, 1255) and b]
        if not ks:
            return
        k = r.choice(ks)
        entries[k] = (entries[k][0], entries[k][1][:-1] + b"\xff")
        bad = hdr + b"".join(ref.frame(i, b) for i, b in entries)
        if any(i == ref.MMKERNPAIR for i, _ in entries):
            return
    p = d / "broken.vfb"
    p.write_bytes(bad)
    target = d / "broken.vfb.json"
    old = r.random() < 0.5
    if old:
        target.write_bytes(b"old")
    at = f"{label}, broken ({kind} entry {k}): vfb2json"
    try:
        v = lib.load(bad)
        v.decompile()
        fails = False
    except Exception:
        fails = True
    res = cli.call("vfb2json", p)
    have = target.read_bytes() if target.exists() else None
    ctx.ev("broken files")
    if fails:
        ctx.expect(not res.ok, f"{at}: reported success", file=bad)
        ctx.expect(have == (b"old" if old else None), f"{at}: failed, but changed the output to "
                   f"{core.short(have)}", file=bad)
        ctx.ev("failures without output")
    else:
        # (an incomplete last entry may be decodable)
        if ctx.expect(res.ok and have is not None, f"{at}: {res.why}", file=bad):
            m = len(json.loads(have)["entries"])
            ctx.expect(m == (k + 1 if kind == "cut" else len(entries)), f"{at}: {m} entries", file=bad)
        ctx.ev("broken files which can be decoded")
    ctx.expect(p.read_bytes() == bad, f"{at}: the input file was changed", file=bad)
