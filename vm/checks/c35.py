"""vfb2tth exports the TrueType hinting of a file, the same in all formats."""
import json
import shutil
import tomllib
from pathlib import Path

from vm import cli, core, lib, ref, ufox
from vm.checks.u26 import ALIGN, CODES, stems

BUDGET = (12, 300)
GENS = [dict(focus=("tth", "stems", "outlines"), nglyphs=5), dict(focus=("tth", "stems", "mm"), nglyphs=4),
        dict(focus=("tth", "stems", "stemnames", "duplicates", "oddnames"), nglyphs=6),
        dict(focus=("stems", "stemnames", "info"), nglyphs=2),
        dict(focus=("tth", "stems", "components"), nglyphs=6), dict(nglyphs=3)]
STEMS = ("font.vfb", "My Font.vfb", "a.b.vfb", "FONT.VFB", "noext")


def unique(name, taken):
    if name in taken:
        i = 1
        while f"{name}#{i}" in taken:
            i += 1
        name = f"{name}#{i}"
    taken.add(name)
    return name


def model(src):
    """-> expected export, glyphs which aren't judged"""
    font, skip = {}, set()
    if 1265 in src.font:
        font["gasp"] = {str(x["maxPpem"]): x["flags"] for x in src.font[1265]}
    for k in ("head_lowest_rec_ppem", "head_units_per_em"):
        if k in (src.font.get(1264) or {}):
            font[k] = src.font[1264][k]
    for k, eid in (("stemsnaplimit", 1272), ("zoneppm", 1274), ("codeppm", 1275)):
        if eid in src.font:
            font[k] = src.font[eid]
    S, taken, names = stems(src), set(), {}
    for d in "VH":
        for i, (w, px, nm) in enumerate(S[d]):
            nm = unique(nm, taken)
            names[d, i] = nm
            font.setdefault("stems", {})[nm] = {"width": w, "horizontal": d == "V", "round": px}
    z, taken, znames = src.font.get(1255) or {}, set(), {}
    zones, order = {}, {}
    for d in "TB":
        for i, rec in enumerate(z.get("ttZones" + d, [])):
            nm = unique(rec["name"], taken)
            znames[d, i] = nm
            zones[nm] = {"position": rec["position"], "width": rec["value"], "top": d == "T"}
            order.setdefault(d, []).append(nm)
    flat = order.get("B", []) + order.get("T", [])
    for zi, ds in (src.font.get(1273) or {}).items():
        zones[flat[int(zi)]]["deltas"] = {str(k): x for k, x in ds.items()}
    if zones:
        font["zones"] = zones
    glyphs, gtaken = {}, set()
    for g in src.glyphs:
        cmds = g.s.get("tth")
        if not cmds:
            continue
        out = []
        for c in cmds:
            p, code = c["params"], c["cmd"]
            x = {"code": CODES[code]}
            for a, b in (("pt", "point"), ("pti", "point"), ("pt1", "point1"), ("pt2", "point2"),
                         ("shift", "delta"), ("ppm1", "ppm1"), ("ppm2", "ppm2")):
                if a in p:
                    x[b] = p[a]
            if "zone" in p:
                x["zone"] = znames["T" if code == "AlignTop" else "B", p["zone"]]
            if "stem" in p:
                s = p["stem"]
                if s <= -2:
                    x["round"] = True
                elif s >= 0:
                    # the first stem stands in for missing ones
                    nm = names.get((code[-1], s), names.get((code[-1], 0)))
                    if nm is not None:
                        x["stem"] = nm
            if p.get("align", -1) > -1:
                x["align"] = ALIGN.get(p["align"], "round")
            out.append(x)
        glyphs[unique(g.name, gtaken)] = out
    return {"font": font, "glyphs": glyphs}, skip


def read(kind, b):
    if kind == "toml":
        return tomllib.loads(b.decode())
    if kind == "yaml":
        import yaml

        return yaml.safe_load(b.decode())
    return json.loads(b)


def vary(ctx, r, raw):
    """The file with gaps in the tables of stem roundings and other orders of the entries"""
    v = lib.load(raw)
    try:
        v.decompile()
    except Exception:
        return None
    for e in list(v.entries):
        if e.id in (1268, 1524):
            if r.random() < 0.2:
                v.entries.remove(e)
                ctx.ev("table left out")
                continue
            for k in ("ttStemsH", "ttStemsV"):
                L = e.data[k]
                if e.id == 1524:
                    # always has all stems
                    continue
                keep = L[:r.randint(0, len(L))]
                if len(keep) < len(L):
                    ctx.ev("stems without roundings", len(L) - len(keep))
                e.data[k] = keep
    at = [i for i, e in enumerate(v.entries) if e.id in (1268, 1269, 1524, 1255, 1264, 1265)]
    if r.random() < 0.3:
        es = [v.entries[i] for i in at]
        r.shuffle(es)
        # the stem tables build on each other
        es = [e for e in es if e.id not in (1268, 1269, 1524)] + [
            v.entries[i] for i in at if v.entries[i].id in (1268, 1269, 1524)]
        for i, e in zip(at, es):
            v.entries[i] = e
        ctx.ev("entries reordered")
    src = ufox.from_vfb(v)
    return lib.dump(v), src


def run(ctx):
    ctx.rule = (
        "real fonts and generated ones with TrueType stems, zones, deltas and commands, exported as "
        "JSON, TOML and YAML: every value against the source, the formats against each other; "
        "files which can't be decoded must be reported and leave no output"
    )
    d = Path("w")
    for label, src, v, raw in ufox.sources(ctx, 40, GENS, quick_limit=60_000):
        r = ctx.sub("t", label)
        if r.random() < 0.35:
            x = vary(ctx, r, raw)
            if x is None:
                continue
            raw, src = x
        d.mkdir()
        try:
            one(ctx, r, d, label, src, raw)
        finally:
            shutil.rmtree(d)
    ctx.require(**{"json": 30, "toml": 30, "yaml": 30, "stems": 50, "zones": 40, "commands": 150,
                   "zone deltas": 5, "broken": 5, "named apart": 3, "rounds": 100, "gasp ranges": 5})


def one(ctx, r, d, label, src, raw):
    for x in ("in", "out"):
        (d / x).mkdir()
    name = r.choice(STEMS)
    p = d / "in" / name
    p.write_bytes(raw)
    want, skip = model(src)
    got = {}
    for kind in ("json", "toml", "yaml"):
        argv = [] if kind == "json" and r.random() < 0.5 else [r.choice(("-f", "--format")), kind]
        other = r.random() < 0.4
        if other:
            argv += [r.choice(("-p", "--path")), d / "out"]
        at = f"{label}: vfb2tth {' '.join(map(str, argv))} {name}"
        before = cli.tree(d)
        res = cli.call("vfb2tth", *argv, p)
        after = cli.tree(d)
        if not ctx.expect(res.ok, f"{at}: {res.why}", file=raw):
            continue
        t = Path("out" if other else "in") / Path(name).with_suffix(f".tth.{kind}")
        diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        new = sorted(k for k in after if before.get(k, "missing") != after[k])
        if not ctx.expect(new == [str(t)], f"{at}: wrote {new}, expected {t} ({diff})", file=raw):
            continue
        ok, x = ctx.guard(f"{at}: reading the output", read, kind, after[str(t)], detail={"file": raw})
        if not ok:
            continue
        got[kind] = x
        ctx.ev(kind)
        x = cli.jsonish(x)
        ctx.expect(set(x) == {"font", "glyphs"}, f"{at}: keys {sorted(x)}", file=raw)
        exp = {"font": want["font"], "glyphs": {k: c for k, c in want["glyphs"].items()
                                                if k not in skip}}
        x["glyphs"] = {k: c for k, c in x.get("glyphs", {}).items() if k not in skip}
        a, b = core.norm(x), cli.jsonish(core.norm(exp))
        if a != b:
            ctx.violation(f"{at}: {core.first_diff(a, b)} (got != expected)", file=raw, got=x)
        # rounding is listed by pixels
        for nm, s in x["font"].get("stems", {}).items():
            if kind == "toml":
                ctx.expect(list(s["round"].values()) == sorted(s["round"].values()),
                           f"{at}: order of the rounding of stem {nm!r}: {s['round']}", file=raw)
            ctx.ev("rounds", len(s["round"]))
        ctx.case((label, ctx.seed, kind), bool(want["glyphs"] or "stems" in want["font"]))
    if len(got) == 3:
        for kind in ("toml", "yaml"):
            ctx.expect(got[kind] == got["json"], f"{label}: {kind} and JSON differ: "
                       f"{core.first_diff(core.norm(got[kind]), core.norm(got['json']))}", file=raw)
    ctx.ev("gasp ranges", len(want["font"].get("gasp", {})))
    ctx.ev("stems", len(want["font"].get("stems", {})))
    ctx.ev("zones", len(want["font"].get("zones", {})))
    ctx.ev("zone deltas", sum(len(z.get("deltas", {})) for z in want["font"].get("zones", {}).values()))
    ctx.ev("commands", sum(map(len, want["glyphs"].values())))
    ctx.ev("named apart", sum("#" in k for k in want["font"].get("stems", {})))
    ctx.ev("not judged glyphs", len(skip))
    # an entry which can't be decoded
    if r.random() < 0.4:
        hdr, entries, _ = ref.read_container(raw)
        ks = [k for k, (i, b) in enumerate(entries) if i in (2001, 1255, 1273) and b]
        if not ks or any(i == ref.MMKERNPAIR for i, _ in entries):
            return
        k = r.choice(ks)
        entries[k] = (entries[k][0], entries[k][1][:-1] + b"\xff")
        bad = hdr + b"".join(ref.frame(i, b) for i, b in entries)
        q = d / "bad.vfb"
        q.write_bytes(bad)
        t = d / "bad.tth.json"
        old = r.random() < 0.5
        if old:
            t.write_bytes(b"old")
        res = cli.call("vfb2tth", q)
        at = f"{label}, entry {k} ({entries[k][0]}) broken: vfb2tth"
        try:
            lib.load(bad).entries[k].decompile()
            return
        except Exception:
            pass
        ctx.expect(not res.ok, f"{at}: reported success", file=bad)
        have = t.read_bytes() if t.exists() else None
        ctx.expect(have == (b"old" if old else None), f"{at}: output {core.short(have)}", file=bad)
        ctx.ev("broken")
