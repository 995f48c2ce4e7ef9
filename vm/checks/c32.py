"""vfb3ufo: each option of the command line does what it says, and only that."""
import json
import shutil
import zipfile
from pathlib import Path

from vm import cli, fontgen, lib, ufox
from vm.checks.u33 import clean, close

BUDGET = (16, 300)
GENS = [dict(focus=("mm", "hints", "tth", "stems", "classes", "badclasses", "kerning"), nglyphs=4),
        dict(focus=("hints", "links", "tth", "stems", "note", "mask", "guides"), nglyphs=3, axes=0),
        dict(focus=("classes", "badclasses", "features", "kerning", "duplicates"), nglyphs=6),
        dict(focus=("info", "hints", "outlines"), nglyphs=3, axes=1)]
FLAGS = {"pshints": ("-nops", "--no-postscript-hints"), "base64": ("-64", "--base64"),
         "minimal": ("-m", "--minimal"), "add_kerning_groups": ("-k", "--add-kerning-groups"),
         "move_groups": ("-g", "--keep-groups"), "normalize": ("-n", "--no-normalize")}
DEFAULTS = {"pshints": True, "base64": False, "minimal": False, "add_kerning_groups": False,
            "move_groups": True, "normalize": True}


def read(ctx, path, kind, at, raw):
    from ufoLib2.objects.font import Font

    if kind in ("json", "jsonz"):
        ok, u = ctx.guard(f"{at}: reading {path.name}", Font.json_load, path, detail={"file": raw})
    else:
        ok, u = ctx.guard(f"{at}: reading {path.name}", Font.open, path, lazy=False,
                          detail={"file": raw})
    return clean(ufox.dump(u)) if ok else None


def run(ctx):
    from fontTools.designspaceLib import DesignSpaceDocument

    ctx.rule = (
        "generated and real fonts converted by the command line tool with random sets of options, "
        "in long and short form and any order: written files against a conversion with the options "
        "that the arguments stand for, normalized and indented as asked for, output on the terminal"
    )
    small = [p for p in lib.REAL if p.stat().st_size < 40000]
    n = 0
    d = Path("w")
    while ctx.more(n, 30):
        r = ctx.sub("f", n)
        if n < len(small) and n % 2:
            label, raw = small[n // 2 % len(small)].name, small[n // 2 % len(small)].read_bytes()
        else:
            g, entries, raw = fontgen.gen(r, **dict(r.choice(GENS)))
            label = f"gen{n}"
        n += 1
        d.mkdir()
        try:
            one(ctx, r, d, label, raw, DesignSpaceDocument)
        finally:
            shutil.rmtree(d)
        if len(ctx.violations) > 10:
            return
    ctx.require(**{o: 5 for o in FLAGS}, silent=5, talking=5, unicode=3, verbose=2,
                **{"ufo": 5, "ufoz": 3, "json": 3, "jsonz": 3, "designspaces": 5, "no input": 3,
                   "normalized": 3, "not normalized": 3})


def one(ctx, r, d, label, raw, DesignSpaceDocument):
    p = d / r.choice(("font.vfb", "My Font.vfb"))
    p.write_bytes(raw)
    kind = r.choice(("ufo", "ufo", "ufo", "ufoz", "json", "jsonz"))
    opts, argv = dict(DEFAULTS), []
    for o, names in FLAGS.items():
        if r.random() < (0.7 if o == "normalize" else 0.35):
            opts[o] = not DEFAULTS[o]
            argv.append([r.choice(names)])
            ctx.ev(o)
    if kind in ("ufoz", "jsonz"):
        argv.append([r.choice(("-z", "--zip"))])
    if kind in ("json", "jsonz"):
        argv.append([r.choice(("-j", "--json"))])
    silent = r.random() < 0.5
    if silent:
        argv.append([r.choice(("-s", "--silent"))])
    uni = r.random() < 0.25
    if uni:
        argv.append([r.choice(("-u", "--unicode-strings"))])
        ctx.ev("unicode")
    if r.random() < 0.15:
        argv.append([r.choice(("-v", "--verbose"))])
        ctx.ev("verbose")
    if r.random() < 0.1:
        argv.append([r.choice(("-ttx", "--ttx"))])
    argv.append([p])
    r.shuffle(argv)
    argv = [x for a in argv for x in a]
    at = f"{label}: vfb3ufo {' '.join(map(str, argv))}"
    if r.random() < 0.1:
        p.unlink()
        res = cli.call("vfb3ufo", *argv)
        ctx.expect(not res.ok, f"{at}: no error for a missing input", file=raw)
        ctx.equal([x.name for x in d.iterdir()], [], f"{at}: files from a missing input")
        ctx.ev("no input")
        return
    path = p.with_suffix({"ufo": ".ufo", "ufoz": ".ufoz"}.get(kind, ".json"))
    api = {k: x for k, x in opts.items() if k != "normalize"}

    def reference():
        v = lib.load(raw, minimal=opts["minimal"], unicode_strings=uni)
        v.decompile()
        return ufox.convert(v, str(path), **api)

    ok, res = ctx.guard(f"{at}: conversion by the library", reference, detail={"file": raw})
    if not ok:
        return
    _, ufos, ds = res
    want = [clean(ufox.dump(u)) for u in ufos]
    if kind == "ufo" and opts["normalize"] and any(
            '"' in str(x) for w in want for g in w["glyphs"].values() for h in g.values()
            for x in h["guidelines"] + h["anchors"]):
        return  # see U33, normalize-quote-in-name
    res = cli.call("vfb3ufo", *argv)
    if not ctx.expect(res.ok, f"{at}: {res.why}", file=raw):
        return
    if silent:
        ctx.expect(res.out == "", f"{at}: prints {res.out[:200]!r}", file=raw)
        ctx.ev("silent")
    else:
        ctx.expect("vfb3ufo" in res.out and p.name in res.out,
                   f"{at}: prints {res.out[:200]!r}", file=raw)
        ctx.ev("talking")
    for i, w in enumerate(want):
        q = path.with_name(f"{path.stem}{f'-{i}' if i else ''}{path.suffix}")
        if not ctx.expect(q.exists(), f"{at}: no {q.name}", file=raw):
            continue
        got = read(ctx, q, kind, at, raw)
        if got is None:
            continue
        diff = [x for x in ufox.differences(got, w) if not close(x[1], x[2])]
        if diff:
            ctx.violation(f"{at}: {q.name}: {diff[0][0]} is {diff[0][1]!r}, expected {diff[0][2]!r}",
                          file=raw, differences=diff[:10])
        ctx.case((label, ctx.seed, i, tuple(map(str, argv))), True)
        ctx.ev(kind)
        if kind == "ufoz":
            ctx.expect(zipfile.is_zipfile(q), f"{at}: {q.name} isn't a zip file", file=raw)
        if kind.startswith("json"):
            lines = q.read_text("utf-8").strip().count("\n")
            ctx.expect((lines > 0) == (kind == "json"), f"{at}: {q.name} has {lines} line breaks",
                       file=raw)
            json.loads(q.read_text("utf-8"))
        if kind == "ufo":
            glif = [x.read_text("utf-8") for x in q.rglob("*.glif")]
            if glif:
                # the normalizer indents by two spaces, and writes <advance> before <unicode>
                norm = sum(1 for x in glif if "\n  <" in x or "\n\t<" in x)
                ctx.ev("normalized" if opts["normalize"] else "not normalized", bool(norm))
                if opts["normalize"]:
                    again = d / "again.ufo"
                    shutil.copytree(q, again)
                    from ufonormalizer import normalizeUFO

                    normalizeUFO(ufoPath=again, onlyModified=False, writeModTimes=False)
                    a, b = cli.tree(q), cli.tree(again)
                    ctx.expect(a == b, f"{at}: {q.name} isn't normalized: "
                               f"{[k for k in a if a[k] != b.get(k)][:3]}", file=raw)
                    shutil.rmtree(again)
                else:
                    plain = d / "plain.ufo"
                    ufos[i].save(plain)
                    a, b = cli.tree(q), cli.tree(plain)
                    ctx.expect(a == b, f"{at}: {q.name} isn't as it was saved: "
                               f"{[k for k in set(a) | set(b) if a.get(k) != b.get(k)][:3]}", file=raw)
                    shutil.rmtree(plain)
    dsp = path.with_suffix(".designspace")
    ctx.equal(dsp.exists(), ds is not None, f"{at}: designspace exists", file=raw)
    if ds is not None and dsp.exists():
        ok, x = ctx.guard(f"{at}: reading the designspace", DesignSpaceDocument.fromfile, dsp,
                          detail={"file": raw})
        if ok:
            a, c = ufox.plain(ufox.dump_ds(x)), ufox.plain(ufox.dump_ds(ds))
            diff = [q for q in ufox.differences(a, c) if not close(q[1], q[2])]
            ctx.expect(not diff, f"{at}: designspace: {diff[:2]}", file=raw)
            ctx.ev("designspaces")
