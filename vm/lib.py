"""Helpers shared by the checks: files from the model, access to the library."""
import copy
import io
import math

from vfbLib.vfb.entry import VfbEntry
from vfbLib.vfb.vfb import Vfb

from vm import core, ref

ALL_IDS = sorted(ref.KIND)
# decompiled while the file is read, because other entries depend on them
CONTEXT_IDS = (ref.FLVERSION, ref.MASTERCOUNT, ref.TTSTEMS)
BODY_IDS = [i for i in ALL_IDS if i not in CONTEXT_IDS and i != ref.FILE_END]
REAL = sorted(core.DATA.glob("*.vfb"))


def load(raw, **kw):
    v = Vfb(timing=False, **kw)
    v.read_bytes(io.BytesIO(raw))
    return v


def dump(v):
    out = io.BytesIO()
    v.write_bytes(out)
    return out.getvalue()


def env(rng, masters=None, platform=None, mixed=True):
    e = ref.Env(
        rng,
        masters or rng.choice((1, 1, 1, 2, 2, 3, 4, 8, 16)),
        platform or rng.choice(("macos", "windows")),
        rng.randint(0, 3),
        rng.randint(0, 3),
    )
    if rng.random() < 0.01:
        e.nv = rng.choice((70, 300))  # an unusual number of stems
    e.big = rng.random() < 0.25
    if mixed and rng.random() < 0.2:
        e.gm = rng.choice((1, 2, 3, 5, 8))
    return e


def prologue(e, with_stems=True):
    """[(id, structure, bytes)] of the entries which set up the context"""
    canon, e.canon = e.canon, True
    try:
        fl = ref.g_flversion(e)
        out = [(ref.FLVERSION, *fl), (ref.MASTERCOUNT, e.m, ref.u16(e.m))]
        if with_stems:
            out.append((ref.TTSTEMS, *ref.g_ttstems(e, (e.nv, e.nh))))
    finally:
        e.canon = canon
    return out


def small_file(e, items):
    """A complete file around the given (id, bytes) entries -> raw, index of first"""
    pro = [(i, b) for i, _, b in prologue(e)]
    raw = ref.container(pro + list(items) + [(ref.FILE_END, b"")])
    return raw, len(pro)


def one(e, eid, data):
    """-> (Vfb, VfbEntry) of a file which contains only the entry"""
    raw, k = small_file(e, [(eid, data)])
    v = load(raw)
    return v, v.entries[k]


def where(v, entry):
    """The indices of an entry object in a file; None when there is no entry"""
    if entry is None:
        return None
    return [i for i, x in enumerate(v.entries) if x is entry] or "not in the file"


def random_file(rng, e=None, n=None, ids=None, canon=True):
    """-> env, [(id, structure, bytes)] of a whole file, end marker included"""
    e = e or env(rng)
    e.canon = canon
    ids = ids or BODY_IDS
    out = list(prologue(e))
    for _ in range(n if n is not None else rng.randint(0, 25)):
        eid = rng.choice(ids) if rng.random() < 0.8 else 2001
        out.append((eid, *ref.entry(e, eid)))
    out.append((ref.FILE_END, "", b""))
    return e, out


def pack(items, minor=4):
    return ref.container([(i, b) for i, _, b in items], minor)


def strip_empty(d, keys):
    for k in keys:
        if k in d and not d[k]:
            del d[k]
    return d


def code_of(x):
    """TrueType bytecode of imported instructions"""
    if x is None:
        return b""
    if isinstance(x, (tuple, list)) and len(x) == 2 and x[0] == "code":
        return bytes(x[1])
    from fontTools.ttLib.tables.ttProgram import Program

    p = Program()
    p.fromAssembly(list(x))
    return bytes(p.getBytecode())


def canon_struct(eid, s):
    """Content of a decompiled entry: no difference between absent and empty parts."""
    kind = ref.KIND.get(eid)
    if kind == "glyph" and isinstance(s, dict):
        s = dict(s)
        h = s.get("hints")
        if isinstance(h, dict):
            h = strip_empty(dict(h), ("h", "v", "hintmasks"))
            s["hints"] = h
        g = s.get("guides")
        if isinstance(g, dict):
            s["guides"] = strip_empty(dict(g), ("h", "v"))
        if s.get("imported"):
            im = dict(s["imported"])
            if "instructions" in im:
                im["instructions"] = code_of(im["instructions"])
            s["imported"] = strip_empty(im, ("nodes", "instructions", "hdmx", "endpoints"))
        strip_empty(s, ("hints", "guides", "components", "kerning", "tth", "nodes", "metrics"))
    if kind == "features" and isinstance(s, list):
        s = list(s)
        while s and not s[-1]:
            s.pop()
    return rnd(core.norm(s))


def rnd(o):
    """Floats to 12 significant digits, -0.0 and ints kept apart only by value."""
    if isinstance(o, float):
        if o != o or math.isinf(o):
            return repr(o)
        return float(f"{o:.12g}")
    if isinstance(o, dict):
        return {k: rnd(v) for k, v in o.items()}
    if isinstance(o, list):
        return [rnd(v) for v in o]
    return o


def content_diff(eid, got, want):
    """None when equal, else a description."""
    if isinstance(got, bytes):
        return "still bytes"
    g, w = canon_struct(eid, got), canon_struct(eid, want)
    return None if g == w else core.first_diff(g, w)


def new_entry(v, eid, data):
    e = VfbEntry(v, eid=eid)
    e.data = data
    return e


def lib_struct(eid, s):
    """The model's structure in the form that the library accepts for compiling."""
    s = copy.deepcopy(s)
    if ref.KIND.get(eid) == "glyph" and s.get("imported"):
        ins = s["imported"].get("instructions")
        if isinstance(ins, (tuple, list)) and len(ins) == 2 and ins[0] == "code":
            from fontTools.ttLib.tables.ttProgram import Program

            p = Program()
            p.fromBytecode(ins[1])
            s["imported"]["instructions"] = p.getAssembly()
    return s


def clip_ids(rng, k):
    return [rng.choice(BODY_IDS) for _ in range(k)]
