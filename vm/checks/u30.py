"""The conversion doesn't change its source, can be repeated, and doesn't depend on hash seeds."""
import copy
import hashlib
import json
import os
import subprocess
import sys
from pathlib import Path

from vfbLib.ufo.builder import VfbToUfoBuilder

from vm import core, lib, ufox

BUDGET = (16, 300)
GENS = [dict(focus=("mm", "tth", "stems", "hints", "hintmasks", "kerning", "classes")),
        dict(focus=("bitmaps", "image", "mask", "guides", "guideprops", "anchors")),
        dict(focus=("classes", "badclasses", "features", "kerning")),
        dict(focus=("info", "programs", "instructions", "stems", "stemnames", "tth")),
        dict(focus=("duplicates", "components", "tth", "mm")), {}]


def state(v):
    return [(e.id, copy.deepcopy(e.data)) for e in v.entries]


def opts_of(r):
    return {"minimal": r.random() < 0.3, "pshints": r.random() < 0.7, "base64": r.random() < 0.3,
            "add_kerning_groups": r.random() < 0.4, "move_groups": r.random() < 0.6}


def result(v, opts, path="out/font.ufo"):
    b, ufos, ds = ufox.convert(v, path, **opts)
    return b, ufos, ds, ([ufox.dump(u) for u in ufos], ufox.dump_ds(ds))


def vandalize(u):
    """Change everything which could be shared"""
    def walk(x, depth=0):
        if depth > 6:
            return
        if isinstance(x, dict):
            for k in list(x):
                walk(x[k], depth + 1)
            try:
                x["vandal"] = 1
            except Exception:
                pass
        elif isinstance(x, list):
            for y in x:
                walk(y, depth + 1)
            x.append("vandal")

    walk(u.lib)
    for k in list(u.groups):
        u.groups[k].append("vandal")
    u.kerning.clear()
    u.features.text += "vandal"
    for f in ("openTypeHeadFlags", "openTypeOS2Panose", "openTypeOS2Selection",
              "postscriptBlueValues", "openTypeOS2Type", "openTypeOS2UnicodeRanges",
              "openTypeOS2FamilyClass", "openTypeOS2CodePageRanges", "postscriptOtherBlues",
              "postscriptStemSnapH"):
        x = getattr(u.info, f, None)
        if isinstance(x, list):
            x.append(99)
    for layer in u.layers:
        for g in layer:
            walk(g.lib)
            g.unicodes.append(1)
            for a in g.anchors:
                if isinstance(a, dict):
                    a["x"] = -77777
                else:
                    a.x = -77777
            for a in g.guidelines:
                if isinstance(a, dict):
                    a["angle"] = -77777
                else:
                    a.angle = -77777
            for c in g.contours:
                for p in c.points:
                    p.x = -77777


HELPER = """
import hashlib, json, logging, sys
sys.path.insert(0, sys.argv[1])
logging.disable(logging.CRITICAL)
from vm import lib, ufox
from vm.checks import u30
for line in sys.stdin:
    d = json.loads(line)
    try:
        v = lib.load(bytes.fromhex(d["raw"])); v.decompile()
        r = u30.result(v, d["opts"])[3]
        h = hashlib.sha256(json.dumps(r).encode()).hexdigest()
    except Exception as e:
        h = "failed:" + type(e).__name__
    print(h, flush=True)
"""


def threads(ctx, jobs):
    """The same conversions at the same time; the threads switch as often as possible"""
    import threading

    got = [None] * len(jobs)

    def work(k):
        try:
            v = lib.load(jobs[k][1])
            v.decompile()
            b = VfbToUfoBuilder(v, **jobs[k][2])
            ufos, ds = b.get_ufos_designspace(Path("out/font.ufo"), silent=True)
            r = [ufox.dump(u) for u in ufos], ufox.dump_ds(ds)
            got[k] = hashlib.sha256(json.dumps(r).encode()).hexdigest()
        except Exception as e:
            got[k] = f"{type(e).__name__}: {e}"

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for (label, raw, opts, h), g in zip(jobs, got):
        ctx.expect(g == h, f"{label}: the result is another one when {len(jobs)} conversions run in "
                   f"threads: {g}", file=raw, opts=opts, others=[j[1] for j in jobs])
        ctx.ev("conversions in threads")


def run(ctx):
    ctx.rule = (
        "real and generated fonts with random options: source data before and after conversion, "
        "results of repeated conversion (same builder, other builder, after another conversion "
        "with other options, after the first result was modified), and digests of the results in "
        "processes with other hash seeds and in parallel threads"
    )
    jobs = []
    for label, src, v, raw in ufox.sources(ctx, 25, GENS, frac=0.75):
        r = ctx.sub("opt", label)
        opts = opts_of(r)
        before = state(v)
        ok, res = ctx.guard(f"{label}: conversion", result, v, opts, detail={"file": raw})
        if not ok:
            continue
        b, ufos, ds, first = res
        ctx.equal(state(v), before, f"{label}: source data after conversion", file=raw)
        # same builder again, after the masters have been changed
        u2, ds2 = b.get_ufos_designspace(Path("out/font.ufo"), silent=True)
        ctx.equal([ufox.dump(u) for u in u2], first[0], f"{label}: second result of the builder",
                  file=raw, opts=opts)
        ctx.equal(ufox.dump_ds(ds2), first[1], f"{label}: second designspace", file=raw)
        vandalize(ufos[0])
        if len(ufos) > 1:
            ctx.equal([ufox.dump(u) for u in ufos[1:]], first[0][1:],
                      f"{label}: other masters after a change of the first one", file=raw, opts=opts)
            ctx.ev("masters checked for shared state", len(ufos) - 1)
        for a in (ds.axes if ds else ()):
            a.map.append((5000, 5000))
            a.maximum = 9999
        u3, ds3 = b.get_ufos_designspace(Path("out/font.ufo"), silent=True)
        ctx.equal([ufox.dump(u) for u in u3], first[0],
                  f"{label}: result of the builder after a change of the first result", file=raw,
                  opts=opts)
        ctx.equal(ufox.dump_ds(ds3), first[1],
                  f"{label}: designspace after a change of the first one", file=raw)
        ctx.equal(state(v), before, f"{label}: source data after a change of the UFO", file=raw)
        # other options in between, then again
        other = opts_of(r)
        ok, _ = ctx.guard(f"{label}: conversion", result, v, other, detail={"file": raw})
        ok, res = ctx.guard(f"{label}: conversion", result, v, opts, detail={"file": raw})
        if ok:
            ctx.equal(res[3], first, f"{label}: result of another builder after options {other}",
                      file=raw, opts=opts)
        v2 = lib.load(raw)
        v2.decompile()
        ok, res = ctx.guard(f"{label}: conversion", result, v2, opts, detail={"file": raw})
        if ok:
            ctx.equal(res[3], first, f"{label}: result for a new copy of the source", file=raw,
                      opts=opts)
        out = lib.dump(v)
        if r.random() < 0.3:
            w = lib.load(raw)
            w.decompile()
            ctx.expect(out == lib.dump(w), f"{label}: the VFB written after conversion differs",
                       file=raw)
        ctx.ev("repeated conversions", 4)
        ctx.case((label, ctx.seed, sorted(opts.items())))
        if len(raw) < 60000:
            jobs.append((label, raw, opts, hashlib.sha256(json.dumps(first).encode()).hexdigest()))
        if len(jobs) % 12 == 4:
            threads(ctx, jobs[-4:])
        if len(ctx.violations) > 10:
            return
    jobs = jobs[-(60 if ctx.quick else 600):] + jobs[:8]
    seeds = ("1", "77") if ctx.quick else ("1", "2", "3", "77", "4096")
    for hs in seeds:
        env = dict(os.environ, PYTHONHASHSEED=hs)
        feed = "".join(json.dumps({"raw": j[1].hex(), "opts": j[2]}) + "\n" for j in jobs)
        p = subprocess.run([sys.executable, "-c", HELPER, str(core.VERIF)], input=feed, text=True,
                           capture_output=True, env=env, timeout=280)
        got = p.stdout.split()
        if len(got) != len(jobs):
            raise RuntimeError(f"helper: {p.stderr[-2000:]}")
        for (label, raw, opts, h), g in zip(jobs, got):
            ctx.expect(g == h, f"{label}: the result is another one with hash seed {hs}", file=raw,
                       opts=opts)
            ctx.ev("conversions with other hash seeds")
    ctx.require(**{"repeated conversions": 100, "masters checked for shared state": 20,
                   "conversions with other hash seeds": 50,
                   "conversions in threads": 8})
