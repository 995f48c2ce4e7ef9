"""Dates, feature code, old hint sets, bit lists: nothing is lost when converted."""
import os
import time
from datetime import UTC, datetime, timedelta, timezone

BUDGET = (8, 120)
TAGS = ("liga", "kern", "ss01", "aalt", "c2sc", "frac")
ZERO = 2082841200


def signed(n):
    return n - (1 << 32) if n >= 1 << 31 else n


def dates(ctx, r):
    from vfbLib.ufo.time import convert_timestamp, datetime_to_fl

    k = r.random()
    if k < 0.2:
        u = ZERO + r.choice((0, 1, 2, (1 << 31) - ZERO - 1, (1 << 31) - ZERO, (1 << 32) - ZERO - 1))
    elif k < 0.9:
        u = r.randrange(ZERO, 1 << 32)
    else:
        u = r.randrange(0, ZERO)
    want = datetime.fromtimestamp(max(0, u - ZERO), UTC)
    ok, d = ctx.guard(f"timestamp {u}", convert_timestamp, signed(u))
    if not ok:
        return
    ctx.equal(d, want, f"date of timestamp {u}")
    ctx.expect(d.utcoffset() == timedelta(0), f"date of timestamp {u} isn't in UTC: {d!r}")
    ctx.ev("dates")
    if u < ZERO:
        ctx.ev("dates before 1970")
        old = datetime(r.randint(1905, 1969), r.randint(1, 12), r.randint(1, 28), tzinfo=UTC)
        ok, t = ctx.guard(f"{old}", datetime_to_fl, old)
        if ok:
            ctx.equal(t, ZERO, f"timestamp of {old}")
        return
    tz = timezone(timedelta(minutes=r.choice((0, 60, -300, 345, -720, 840, r.randint(-700, 700)))))
    ok, t = ctx.guard(f"{want}", datetime_to_fl, want.astimezone(tz))
    if ok:
        ctx.equal(t, signed(u), f"timestamp of {want.astimezone(tz)}")
    ctx.ev("timestamps")
    ctx.case(("date", u), True)


def features(ctx, r):
    from vfbLib.parsers.text import OpenTypeStringParser

    lines, prefix, feats = [], [], []

    def other():
        return r.choice(("", "# a comment", "lookup a {", "} a;", "  sub a by b;", "languagesystem DFLT;",
                         "# feature liga {", "  # } feature kern {", "@A = [a b];", "} liga;",
                         "\tpos A B 10; # feature", "table GDEF {", "features",
                         "# feature kern { # old", "#feature liga {#", "sub a by b; # feature calt { ##"))

    for _ in range(r.choice((0, 0, 1, 2, 5))):
        lines.append(other())
        prefix.append(lines[-1])
    for _ in range(r.choice((0, 1, 1, 2, 4))):
        tag = r.choice(TAGS)
        code = [r.choice(("feature {} {{", "feature  {}{{", "  feature {} {{ # x", "\tfeature {} {{ sub a by b;",
                          "feature {} {{#feature abcd {{")).format(tag)]
        code += [other() for _ in range(r.randint(0, 5))]
        lines += code
        feats.append({"tag": tag, "code": code})
    before = list(lines)
    ok, d = ctx.guard(f"feature code {lines}", OpenTypeStringParser.build_fea_dict, lines)
    if ok:
        ctx.equal({"prefix": list(d["prefix"]), "features": [
            {"tag": x["tag"], "code": list(x["code"])} for x in d["features"]]},
            {"prefix": prefix, "features": feats}, f"feature code {lines}")
        ctx.equal(lines, before, "feature code was changed by splitting it")
    ctx.ev("feature code")
    ctx.ev("without features", not feats)
    ctx.case(("fea", tuple(lines)), bool(feats))


def hints(ctx, r):
    from vfbLib.ufo.pshints import update_adobe_hinting

    sets, xml = [], ["<hintSetList>"]
    for i in range(r.choice((0, 1, 1, 2, 4))):
        stems = []
        xml.append(f'<hintset pointTag="hs{i}">')
        for _ in range(r.choice((0, 1, 2, 5))):
            t, pos, w = r.choice("hv"), r.randint(-999, 999), r.choice(
                (r.randint(1, 300), r.randint(-300, -1), -20, -21, 0))
            xml.append(f'<{t}stem pos="{pos}" width="{w}" />')
            if w < 0 and w not in (-20, -21):
                pos, w = pos + w, -w
            stems.append(f"{t}stem {pos} {w}")
        xml.append("</hintset>")
        sets.append({"pointTag": f"hs{i}", "stems": stems})
    xml.append("</hintSetList>")
    s = r.choice(("\n", "", "\n  ")).join(xml)
    data = s.encode() if r.random() < 0.4 else s
    ok, v2 = ctx.guard(f"hints {s}", update_adobe_hinting, data)
    if ok:
        ctx.equal(dict(v2), {"hintSetList": sets} if sets else {}, f"hints {s}")
        again = update_adobe_hinting(v2)
        ctx.equal(dict(again), dict(v2), f"hints which are new already ({s})")
    ctx.ev("hint sets", len(sets))
    ctx.case(("hints", s), bool(sets))


def bits(ctx, r):
    from vfbLib.helpers import binaryToIntList, deHexStr, hexStr, intListToBinary

    n = r.choice((0, 1, 255, 1 << 31, (1 << 32) - 1, r.getrandbits(8), r.getrandbits(32), r.getrandbits(128)))
    want = [i for i in range(n.bit_length()) if n >> i & 1]
    ok, x = ctx.guard(f"bits of {n}", binaryToIntList, n)
    if ok:
        ctx.equal(list(x), want, f"bits of {n}")
    off = r.choice((32, 64, 5))
    ok, x = ctx.guard(f"bits of {n}", binaryToIntList, n, off)
    if ok:
        ctx.equal(list(x), [i + off for i in want], f"bits of {n}, counted from {off}")
    r.shuffle(want)
    ok, x = ctx.guard(f"bits {want}", intListToBinary, want)
    if ok:
        ctx.equal(x, n, f"bits {want}")
    b = r.randbytes(r.choice((0, 1, 2, 30)))
    ctx.equal(hexStr(b), "".join(f"{c:02x}" for c in b), "hex")
    ctx.equal(deHexStr(hexStr(b).upper()), b, "bytes of hex")
    ctx.ev("bit lists")
    ctx.case(("bits", n), True)


OPS = ("b00005", "b1000203", "40080102030405060708", "b8fe00", "b9000103e8", "78", "58", "1b", "59", "2c", "2d",
       "18", "19", "7d", "39", "00", "01", "30", "31", "5d", "3f", "2f", "6021", "0c", "89")


def assembly(ctx, r):
    from fontTools.ttLib.tables.ttProgram import Program

    from vfbLib.ufo.instructions import format_assembly

    code = bytes.fromhex("".join(r.choice(OPS) for _ in range(r.choice((0, 1, 2, 10, 60)))))
    p = Program()
    p.fromBytecode(code)
    # (assembling makes the code canonical)
    p.fromAssembly(p.getAssembly())
    code = p.getBytecode()
    p = Program()
    p.fromBytecode(code)
    lines = list(p.getAssembly())
    forms = {"bytes": code, "lines": list(lines), "text": "\n".join(lines)}
    if lines:
        forms["text with end"] = "\n".join(lines) + "\n"
    res = {}
    for k, x in forms.items():
        ok, res[k] = ctx.guard(f"assembly of {code.hex()} from {k}", format_assembly, x)
        if not ok:
            return
        ctx.equal([t.strip() for t in res[k].split("\n") if t.strip()],
                  [t.strip() for t in lines if t.strip()], f"assembly of {code.hex()} from {k}")
        q = Program()
        q.fromAssembly(res[k])
        ctx.equal(q.getBytecode().hex(), code.hex(), f"assembly of {code.hex()} from {k}, assembled")
    ctx.expect(forms["lines"] == lines, "formatting assembly changed its input")
    ctx.expect(len(set(res.values())) == 1, f"assembly of {code.hex()} depends on its form: {res}")
    ctx.ev("programs")
    ctx.case(("asm", code), bool(code))


def locations(ctx, r):
    from fontTools.designspaceLib import AxisDescriptor

    from vfbLib.ufo.designspace import get_ds_design_location, get_ds_location

    n = r.randint(1, 4)
    axes, maps = [], []
    for i in range(n):
        m = []
        if r.random() < 0.6:
            k = r.randint(2, 6)
            src = sorted(r.sample(range(0, 1000), k))
            m = list(zip(map(float, src), sorted(r.uniform(0, 1000) for _ in src)))
        axes.append(AxisDescriptor(name=r.choice("abc") + str(i), tag=f"ax{i:02}", minimum=0, default=0, maximum=1000, map=list(m)))
        maps.append(m)
    loc = [r.choice((0.0, 1.0, 0.5, r.random())) for _ in range(4)]
    ok, x = ctx.guard("location of a master", get_ds_location, axes, loc)
    if ok:
        ctx.equal(x, {a.name: 1000 * p for a, p in zip(axes, loc)}, f"location of master {loc}")
    user = [r.choice((0.0, 1000.0, r.uniform(0, 1000), float(r.randrange(1000)))) for _ in range(4)]
    for i, m in enumerate(maps):
        if m and r.random() < 0.4:
            user[i] = r.choice(m)[0]
    ok, x = ctx.guard("location of an instance", get_ds_design_location, axes, user)
    if ok:
        want = {}
        for a, m, u in zip(axes, maps, user):
            if not m:
                w = u
            elif u <= m[0][0]:
                w = u + m[0][1] - m[0][0]
            elif u >= m[-1][0]:
                w = u + m[-1][1] - m[-1][0]
            else:
                w = next(t0 + (t1 - t0) * (u - s0) / (s1 - s0)
                         for (s0, t0), (s1, t1) in zip(m, m[1:]) if s0 <= u <= s1)
            want[a.name] = w
        ctx.expect(list(x) == list(want) and all(abs(x[k] - want[k]) < 1e-6 for k in want),
                   f"location of instance {user}: {x} != {want} (maps: {maps})")
    ctx.ev("locations")
    ctx.case(("loc", tuple(loc), tuple(user)), any(maps))


def run(ctx):
    ctx.rule = (
        "timestamps and dates in all time zones, feature code with and without features and comments, "
        "old hint sets as text and bytes, TrueType programs as bytes, text and lines, designspace locations, numbers as bit lists and hex strings; in processes with "
        "different local time zones"
    )
    n = 0
    old = os.environ.get("TZ")
    try:
        while ctx.more(n, 300):
            r = ctx.sub("h", n)
            if n % 50 == 0:
                os.environ["TZ"] = r.choice(("UTC", "Asia/Kathmandu", "America/New_York", "XYZ-9", "ABC+11"))
                time.tzset()
            n += 1
            for fn in (dates, features, hints, bits, assembly, locations):
                fn(ctx, r)
            if len(ctx.violations) > 10:
                return
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()
    ctx.require(dates=300, timestamps=200, **{"dates before 1970": 10, "feature code": 300,
                "without features": 20, "hint sets": 200, "bit lists": 300, "programs": 300, "locations": 300})
