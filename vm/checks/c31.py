"""The tools write where they are told to, all or nothing, and never over existing files unasked."""
import shutil
from pathlib import Path

from vm import cli, core, fontgen, lib, ref, ufox

BUDGET = (18, 300)
GENS = [dict(nglyphs=2, focus=("mm",)), dict(nglyphs=3, axes=0), dict(nglyphs=2, axes=1),
        dict(nglyphs=2, axes=2)]
NAMES = ("font.vfb", "My Font.vfb", "a.b.vfb", "noext", "FONT.VFB")
OUTS = ("out.ufo", "x.y.ufo", "plain", "other name.ufo")


def snapshot(d):
    return {k: (v, (d / k).stat().st_mtime_ns if v is not None else 0)
            for k, v in cli.tree(d).items()}


def changes(a, b):
    """names of what is new, gone, or changed"""
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def inside(name, targets):
    return any(name == t or name.startswith(t + "/") for t in targets)


def run(ctx):
    ctx.rule = (
        "generated fonts with one or several masters converted by vfb3ufo (UFO, zipped UFO, JSON) "
        "and vfbcu2qu into scratch folders where none, some or all of the output files exist "
        "already, with and without forcing, with all ways to name the output; and files written by "
        "the library over existing ones, with entries which can't be compiled: folders compared "
        "file by file before and after, and with a conversion into an empty folder"
    )
    n = 0
    d = Path("w")
    while ctx.more(n, 40):
        r = ctx.sub("f", n)
        g, entries, raw = fontgen.gen(r, **dict(r.choice(GENS)))
        n += 1
        for fn in (ufo, cu, write):
            d.mkdir()
            try:
                fn(ctx, r, d, f"gen{n - 1}", g, raw)
            finally:
                shutil.rmtree(d)
        if len(ctx.violations) > 10:
            return
    ctx.require(**{"refused to overwrite": 10, "overwritten": 10, "fresh": 8, "several masters": 10,
                   "outputpath": 10, "folder option": 10, "failed writes": 15, "cu2qu": 20,
                   "foreign files": 10})


def naming(r, d, name, suffix, default, pick):
    """-> argv for the names, expected path"""
    argv, base = [], default
    kind = r.choice(("", "p", "o", "po"))
    if "o" in kind:
        o = pick
        argv_o = [str(d / "sub" / o)]
        base = d / "sub" / o
    else:
        argv_o = []
        base = d / "in" / default
    if "p" in kind:
        argv = [r.choice(("-p", "--path")), str(d / "out")]
        base = d / "out" / base.name
    return kind, argv, argv_o, base


def setup(d, name, raw):
    for x in ("in", "sub", "out"):
        (d / x).mkdir()
    p = d / "in" / name
    p.write_bytes(raw)
    return p


def ufo(ctx, r, d, label, g, raw):
    name = r.choice(NAMES)
    p = setup(d, name, raw)
    kind = r.choice(("ufo", "ufo", "ufoz", "json", "jsonz"))
    fmt = {"ufo": [], "ufoz": ["-z"], "json": ["-j"], "jsonz": ["-j", "-z"]}[kind]
    suffix = ".ufoz" if kind == "ufoz" else ".ufo"
    how, argv, argv_o, base = naming(r, d, name, suffix, str(Path(name).with_suffix(suffix)),
                                     r.choice(OUTS))
    if kind.startswith("json"):
        base = base.with_suffix(".json")
    if kind == "ufoz" and base.suffix != ".ufoz":
        pass  # the name is taken as it is
    m = g.m
    argv = argv + fmt
    if r.random() < 0.8:
        argv.append(r.choice(("-n", "--no-normalize")))
    if r.random() < 0.3:
        argv.append(r.choice(("-s", "--silent")))
    paths = [base.with_name(f"{base.stem}{f'-{i}' if i else ''}{base.suffix}") for i in range(m)]
    if m > 1:
        paths.append(base.with_suffix(".designspace"))
    targets = [str(x.relative_to(d)) for x in paths]
    # what an empty folder gets
    ref_d = d.with_name("w2")
    shutil.rmtree(ref_d, ignore_errors=True)
    ref_d.mkdir()
    try:
        setup(ref_d, name, raw)
        res = cli.call("vfb3ufo", *[str(a).replace(str(d) + "/", str(ref_d) + "/", 1) for a in argv],
                       ref_d / "in" / name, *[str(a).replace(str(d) + "/", str(ref_d) + "/", 1)
                                               for a in argv_o])
        at = f"{label} ({m} masters): vfb3ufo {' '.join(map(str, argv + [p] + argv_o))}"
        if not ctx.expect(res.ok, f"{at}: {res.why}", file=raw):
            return
        fresh = cli.tree(ref_d)
    finally:
        shutil.rmtree(ref_d)
    ctx.ev("fresh")
    ctx.ev("several masters", m > 1)
    ctx.ev("outputpath", "o" in how)
    ctx.ev("folder option", "p" in how)
    new = [k for k in fresh if k not in ("in", "sub", "out", f"in/{name}")]
    miss = [t for t in targets if t not in fresh]
    extra = [k for k in new if not inside(k, targets)]
    ctx.expect(not miss and not extra, f"{at}: missing {miss}, unexpected {extra}", file=raw)
    ctx.expect(fresh.get(f"in/{name}") == raw, f"{at}: the input file was changed", file=raw)
    # now some exist
    some = [x for x in paths if r.random() < r.choice((0, 0.3, 0.5, 1))]
    for x in some:
        if x.suffix == ".ufo" and kind == "ufo" and r.random() < 0.8:
            x.mkdir()
            (x / "glyphs").mkdir()
            (x / "glyphs" / "stale.glif").write_text("stale")
            (x / "metainfo.plist").write_text("old" * r.choice((1, 1000)))
        else:
            x.write_text("old" * r.choice((1, 1, 100_000)))
    foreign = [d / f / nm for f in ("in", "sub", "out") for nm in
               (base.stem + f"-{m + 1}" + base.suffix, "readme.txt", base.stem + ".bak")
               if r.random() < 0.4]
    for x in foreign:
        if not x.exists():
            x.write_text("foreign")
    ctx.ev("foreign files", len(foreign))
    before = snapshot(d)
    force = r.random() < 0.5
    a = argv + ([r.choice(("-fo", "--force-overwrite"))] if force else [])
    at = f"{label} ({m} masters): vfb3ufo {' '.join(map(str, a + [p] + argv_o))}, existing: " \
         f"{[x.name for x in some]}"
    res = cli.call("vfb3ufo", *a, p, *argv_o)
    after = snapshot(d)
    diff = changes(before, after)
    ctx.case((label, ctx.seed, at), True)
    if some and not force:
        ctx.expect(not res.ok, f"{at}: no error", file=raw)
        ctx.expect(not diff, f"{at}: refused, but changed {diff}", file=raw)
        ctx.ev("refused to overwrite")
        return
    bad_kind = [x for x in some if kind == "ufo" and before[str(x.relative_to(d))][0] is not None]
    if bad_kind and not res.ok:
        # a file where a folder is needed
        ctx.ev("files in the way")
        bad = [k for k in diff if not inside(k, targets)]
        ctx.expect(not bad, f"{at}: other files were changed: {bad}", file=raw)
        return
    if not ctx.expect(res.ok, f"{at}: {res.why}", file=raw):
        return
    ctx.ev("overwritten", bool(some))
    bad = [k for k in diff if not inside(k, targets)]
    ctx.expect(not bad, f"{at}: other files were changed: {bad}", file=raw)
    for k in sorted(set(fresh) | {k for k in after if inside(k, targets)}):
        x, y = fresh.get(k, "missing"), after.get(k, ("missing",))[0]
        if kind == "ufoz" and inside(k, targets) and not k.endswith(".designspace"):
            # zipped with the current time
            ctx.expect(y not in ("missing", None) and y[:2] == b"PK", f"{at}: {k} isn't a zip file",
                       file=raw)
            continue
        ctx.expect(x == y, f"{at}: {k} is {core.short(y, 60)}, in an empty folder "
                   f"{core.short(x, 60)}", file=raw)


def cubic(raw):
    v = lib.load(raw)
    v.decompile()
    return any(x["type"] == "curve" for e in v.entries if e.id == 2001
               for x in e.data.get("nodes", []))


def cu(ctx, r, d, label, g, raw):
    name = r.choice(NAMES)
    p = setup(d, name, raw)
    how, argv, argv_o, base = naming(r, d, name, ".vfb", str(Path(name).with_suffix(".qu.vfb")),
                                     r.choice(("out.vfb", "x.y.vfb", "plain")))
    if how == "p":
        base = d / "out" / Path(name).with_suffix(".vfb").name
    exists = r.random() < 0.6
    force = r.random() < 0.5
    if exists:
        base.write_bytes(b"old" * r.choice((1, 1, 200_000)))
    if r.random() < 0.4:
        (base.with_name("readme.txt")).write_text("foreign")
    a = argv + ([r.choice(("-fo", "--force-overwrite"))] if force else [])
    at = f"{label}: vfbcu2qu {' '.join(map(str, a + [p] + argv_o))}{', output exists' * exists}"
    before = snapshot(d)
    res = cli.call("vfbcu2qu", *a, p, *argv_o)
    diff = changes(before, snapshot(d))
    t = str(base.relative_to(d))
    ctx.case((label, ctx.seed, at), True)
    ctx.ev("cu2qu")
    if exists and not force:
        ctx.expect(not diff, f"{at}: changed {diff}", file=raw)
        if "not modified" not in res.out:
            ctx.expect(not res.ok, f"{at}: no error", file=raw)
        ctx.ev("refused to overwrite")
        return
    plain = None
    if not res.ok or r.random() < 0.2:
        # the same font, converted with no options
        q = Path("w3")
        q.mkdir()
        (q / "font.vfb").write_bytes(raw)
        res2 = cli.call("vfbcu2qu", q / "font.vfb")
        plain = (q / "font.qu.vfb").read_bytes() if (q / "font.qu.vfb").exists() else None
        shutil.rmtree(q)
        ctx.expect(res.ok == res2.ok, f"{at}: {res.why or 'ok'}, without options: {res2.why or 'ok'}", file=raw)
        ctx.ev("compared with plain conversion")
    if not res.ok or "not modified" in res.out:
        # fonts which can't be converted
        ctx.expect(not diff, f"{at}: {res.why}, but changed {diff}", file=raw)
        ctx.ev("cu2qu refused")
        return
    if ctx.expect(diff == [t], f"{at}: changed {diff}, expected {t}", file=raw):
        ok, w = ctx.guard(f"{at}: reading the output", lib.load, base.read_bytes(),
                          detail={"file": raw})
        if ok:
            ctx.guard(f"{at}: decoding the output", w.decompile, detail={"file": raw})
        if plain is not None:
            ctx.expect(base.read_bytes() == plain, f"{at}: the output differs from that without options", file=raw)
        ctx.ev("cu2qu written")
        ctx.ev("overwritten", exists)


class Boom(Exception):
    pass


def write(ctx, r, d, label, g, raw):
    """Vfb.write: an existing file isn't lost when the data can't be compiled"""
    from unittest.mock import patch

    v = lib.load(raw)
    if r.random() < 0.7:
        v.decompile()
    good = r.random() < 0.3
    ks = [k for k, e in enumerate(v.entries) if e.compiler is not None and e.id not in (2, 5)]
    k = r.choice(ks)
    e = v.entries[k]
    how = r.choice(("data", "error", "none"))
    p = d / "font.vfb"
    exists = r.random() < 0.7
    if exists:
        p.write_bytes(b"old content")
    at = f"{label}: writing over {'an existing file' if exists else 'nothing'}"
    if good:
        want = lib.dump(lib.load(raw))
        ok, _ = ctx.guard(at, v.write, p, detail={"file": raw})
        if ok:
            ctx.expect(p.read_bytes() == lib.dump(v), f"{at}: other bytes than on a stream", file=raw)
            ctx.expect(len(lib.load(p.read_bytes()).entries) == len(lib.load(want).entries),
                       f"{at}: entries are missing", file=raw)
        ctx.ev("written")
        ctx.case((label, ctx.seed, at), True)
        return
    if how == "data":
        e.data = {"no": object()}
        ctxm = patch.object(core, "short", core.short)
    elif how == "none":
        e.decompile()
        ctxm = patch.object(e.compiler, "_compile", side_effect=Boom, create=True)
    else:
        e.decompile()
        ctxm = patch.object(e.compiler, "compile", side_effect=Boom, create=True)
    failed = False
    with ctxm:
        try:
            v.write(p)
        except Exception:
            failed = True
    if not failed:
        ctx.ev("written anyway")
        return
    have = p.read_bytes() if p.exists() else None
    ctx.expect(have == (b"old content" if exists else None),
               f"{at}: entry {k} ({e.id}) can't be compiled, the file is {core.short(have)}", file=raw)
    ctx.ev("failed writes")
    ctx.case((label, ctx.seed, at, how, k), True)
