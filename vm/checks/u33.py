"""Saved UFOs and designspaces are what was converted."""
import io
import re
import shutil
from contextlib import redirect_stdout
from pathlib import Path

from vm import ufox

BUDGET = (20, 300)
GENS = [dict(focus=("mm", "tth", "stems", "hints", "kerning", "classes")),
        dict(focus=("bitmaps", "image", "mask", "guides", "guideprops", "anchors", "customdata")),
        dict(focus=("info", "programs", "instructions", "stems", "tth", "features")),
        dict(focus=("duplicates", "components", "mm", "outlines", "note")), {}]
COLOR = re.compile(r"([01](?:\.\d+)?),([01](?:\.\d+)?),([01](?:\.\d+)?),([01](?:\.\d+)?)")


def clean(d):
    """What a UFO can't tell apart"""
    import copy

    d = copy.deepcopy(d)
    for layer in d["glyphs"].values():
        for g in layer.values():
            g["lib"] = drop_none(g["lib"])
            g["contours"] = [[list(p) for p in c] for c in g["contours"]]
            g["components"] = [[b, list(t)] for b, t in g["components"]]
            g["anchors"] = [list(a) for a in g["anchors"]]
            g["guidelines"] = [list(a) for a in g["guidelines"]]
            if g["note"]:
                # GLIF files have no blank lines in notes
                g["note"] = "\n".join(s.strip() for s in g["note"].splitlines()
                                      if s.strip()) or None
    d["lib"] = drop_none(d["lib"])
    d["info"] = {k: v for k, v in d["info"].items() if v not in ("", None)}
    if "guidelines" in d["info"]:
        d["info"]["guidelines"] = [list(a) for a in d["info"]["guidelines"]]
    d["features"] = d["features"].rstrip("\n")
    d["glyphs"] = {k: v for k, v in d["glyphs"].items() if v or k == "public.default"}
    d["groups"] = {k: v for k, v in d["groups"].items()}
    return text(d)


def text(x):
    """line ends are normalized in XML, colors by the normalizer"""
    if isinstance(x, str):
        m = COLOR.fullmatch(x)
        if m:
            return "color " + " ".join(f"{float(c):.4f}" for c in m.groups())
        return x.replace("\r\n", "\n").replace("\r", "\n")
    if isinstance(x, dict):
        return {k: text(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [text(v) for v in x]
    return x


def drop_none(x):
    if isinstance(x, dict):
        return {k: drop_none(v) for k, v in x.items()}
    if isinstance(x, list):
        return [drop_none(v) for v in x]
    if isinstance(x, float):
        return round(x, 9)
    return x


def close(a, b):
    return isinstance(a, (int, float)) and isinstance(b, (int, float)) \
        and not isinstance(a, bool) and abs(a - b) <= 1e-9 * max(1, abs(a))


def run(ctx):
    from fontTools.designspaceLib import DesignSpaceDocument
    from fontTools.ufoLib.errors import GlifLibError
    from ufoLib2.objects.font import Font

    from vfbLib.ufo.builder import VfbToUfoBuilder

    ctx.rule = (
        "real and generated fonts, written as UFO (normalized or not), zipped UFO and JSON, and "
        "read again: content, file names and designspace against the objects in memory"
    )
    for label, src, v, raw in ufox.sources(ctx, 14, GENS, quick_limit=40000):
        r = ctx.sub("opt", label)
        kind = r.choice(("ufo", "ufo", "ufoz", "json"))
        opts = {"minimal": r.random() < 0.2, "pshints": r.random() < 0.7,
                "base64": r.random() < 0.3, "normalize": r.random() < 0.3}
        d = Path("w")
        d.mkdir()
        try:
            stem = r.choice(("font", "My Font", "a.b"))
            path = d / (stem + {"ufo": ".ufo", "ufoz": ".ufoz", "json": ".json"}[kind])
            kw = {"minimal": opts["minimal"], "pshints": opts["pshints"], "base64": opts["base64"]}
            _, ufos, ds = ufox.convert(v, str(path), **kw)
            want = [clean(ufox.dump(u)) for u in ufos]
            b = VfbToUfoBuilder(v, **opts)
            with redirect_stdout(io.StringIO()):
                ok, _ = ctx.guard(f"{label}: write {kind}", b.write, path, ufoz=kind == "ufoz",
                                  json=kind == "json", silent=r.random() < 0.5,
                                  detail={"file": raw, "opts": opts})
            if not ok:
                continue
            names = [path.name] + [f"{path.stem}-{i}{path.suffix}" for i in range(1, len(ufos))]
            files = set(names) | ({path.stem + ".designspace"} if ds else set())
            ctx.equal(sorted(p.name for p in d.iterdir()), sorted(files), f"{label}: files", file=raw)
            for i, n in enumerate(names):
                at = f"{label}: {n} ({kind}, {opts})"
                if kind == "json":
                    ok, u = ctx.guard(f"{at}: reading", Font.json_load, d / n, detail={"file": raw})
                else:
                    quoted = kind == "ufo" and opts["normalize"] and any(
                        '"' in str(x)
                        for g in want[i]["glyphs"].values() for h in g.values()
                        for x in h["guidelines"] + h["anchors"])
                    if quoted:
                        try:
                            u = Font.open(d / n, lazy=False)
                        except GlifLibError as e:
                            if not ctx.known_finding(
                                    "normalize-quote-in-name",
                                    "a double quote in the name of a guide or an anchor makes the "
                                    "normalized UFO unreadable (ufonormalizer writes it unescaped)"):
                                ctx.violation(f"{at}: {e}", file=raw)
                            continue
                        ok = True
                    else:
                        ok, u = ctx.guard(f"{at}: reading", Font.open, d / n, lazy=False,
                                          detail={"file": raw})
                if not ok:
                    continue
                got = clean(ufox.dump(u))
                diff = [(p, a, c) for p, a, c in ufox.differences(got, want[i]) if not close(a, c)]
                if diff:
                    ctx.violation(f"{at}: {diff[0][0]} is {diff[0][1]!r} in the file, "
                                  f"{diff[0][2]!r} in memory", file=raw, differences=diff[:10])
                ctx.ev(kind + " files")
                ctx.ev("glyphs", len(got["glyphs"]["public.default"]))
                ctx.case((label, ctx.seed, i, kind))
            if ds:
                p = d / (path.stem + ".designspace")
                if p.exists():
                    ok, x = ctx.guard(f"{label}: reading the designspace",
                                      DesignSpaceDocument.fromfile, p, detail={"file": raw})
                    if ok:
                        a, c = ufox.plain(ufox.dump_ds(x)), ufox.plain(ufox.dump_ds(ds))
                        diff = [q for q in ufox.differences(a, c) if not close(q[1], q[2])]
                        ctx.expect(not diff, f"{label}: designspace: {diff[:2]}", file=raw)
                        for s in x.sources:
                            ctx.expect(Path(s.path).exists(),
                                       f"{label}: the designspace refers to {s.filename}", file=raw)
                        ctx.ev("designspaces")
        finally:
            shutil.rmtree(d)
        if len(ctx.violations) > 10:
            return
    ctx.require(**{"ufo files": 10, "ufoz files": 3, "json files": 3, "designspaces": 3,
                   "glyphs": 150})
