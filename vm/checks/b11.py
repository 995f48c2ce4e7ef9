"""Text."""
from vm import core, lib, ref

BUDGET = (12, 300)

KF = "mac-utf8-read-as-cp1252"
CP = "".join(bytes([i]).decode("cp1252", "ignore") for i in range(32, 256))


def carriers(t, t2):
    """(id, structure with the text, bytes built from the encoded text) for every kind of
    entry with text; the text is given as str and bytes"""
    s, b = t
    s2, b2 = t2

    def ps(x):
        return ref.val(len(x)) + x

    v = ref.val
    out = [(i, s, b) for i in ref.STRING]
    out += [
        (2026, {s: (1, 2)}, v(1) + ps(b) + v(1) + v(2)),
        (2024, {s: (1, 2, 3)}, v(1) + ps(b) + v(1) + v(2) + v(3)),
        (1255, {"ttZonesT": [{"position": 1, "value": 2, "name": s}],
                "ttZonesB": [{"position": 3, "value": 4, "name": s2}]},
         v(1) + v(1) + v(2) + ps(b) + v(1) + v(3) + v(4) + ps(b2)),
        (1141, [{"language_id": 1, "platform_id": 2, "encoding_id": 3, "format": 4, "option": 5,
                 "page_name": s}], v(1) + v(1) + v(2) + v(3) + v(4) + v(5) + ps(b)),
        (1254, [{"name": s, "values": (0.0, 0.0, 0.0, 0.0)}], v(1) + ps(b) + v(0) * 4),
        (2018, {"anchors": [{"x": 1, "y": 2, "name": s}]},
         v(0) + v(1) + ps(b) + v(1) + v(-1) + v(2) + v(-1) + v(0) + v(0)),
        (1296, {"h": [{"index": 1, "name": s}], "v": []}, v(1) + v(-1) + ps(b) + v(0) + v(0)),
        (2031, {"h": [], "v": [{"index": 2, "name": s}]}, v(0) + v(2) + v(-1) + ps(b) + v(0)),
        (2001, {"name": s, "num_masters": 1, "nodes": [], "metrics": [(1, 2)]},
         b"\x01\x09\x07\x01\x01" + ps(b) + b"\x08" + v(1) + v(0) + v(0) + b"\x02" + v(1) + v(2) + b"\x0f"),
        (1276, [s, ""], b + b"\n"),
        (ref.TTSTEMS, {"ttStemsV": [{"value": 5, "name": s, "round": {6: 1}}], "ttStemsH": []},
         v(1) + v(5) + bytes([len(b)]) + b + v(1) + v(0)),
    ]
    return out


def run(ctx):
    ctx.rule = (
        "texts over every character of Windows-1252 in Windows files, over arbitrary Unicode "
        "in Mac files (with and without forced Unicode strings), carried by every entry type with "
        "text; non-trivial when the text isn't ASCII"
    )
    n = 0
    while ctx.more(n, 40):
        r = ctx.sub("t", n)
        n += 1
        platform = r.choice(("windows", "windows", "macos"))
        force = r.random() < 0.3

        def word():
            k = r.random()
            ln = r.randint(1, 20)
            if k < 0.3:
                return "".join(r.choice("abcXYZ 019") for _ in range(ln - 1)) + "z"
            if platform == "windows" and not force:
                t = "".join(r.choice(CP) for _ in range(ln)).strip()
                for _ in range(r.choice((0, 0, 1, 2))):
                    # no line ends: vertical tab, form feed, separators
                    k = r.randint(0, len(t))
                    t = t[:k] + r.choice("\t\x0b\x0c\x1c\x1d\x1e\x1f\x7f") + t[k:]
                return "a" + t + "z"
            return "".join(r.choice("aé®“ßñЖ日ø\x85\xa0\u2028") for _ in range(ln)) + "z"

        utf = platform == "macos" or force
        enc = "utf-8" if utf else "cp1252"
        t, t2 = word(), word()
        for eid, s, b in carriers((t, t.encode(enc)), (t2, t2.encode(enc))):
            e = ref.Env(r, 1, platform)
            pro = [(ref.FLVERSION, ref.g_flversion(e)[1]), (ref.MASTERCOUNT, ref.u16(1))]
            raw = ref.container(pro + [(eid, b), (2, b"")])
            what = f"text {t!r} in entry {eid} ({platform}{', forced Unicode' if force else ''})"
            known = False

            def cp1252_view():
                def f(o):
                    if isinstance(o, str) and o in (t, t2):
                        return o.encode(enc).decode("cp1252", "replace")
                    if isinstance(o, dict):
                        return {f(k): f(q) for k, q in o.items()}
                    if isinstance(o, (list, tuple)):
                        return [f(q) for q in o]
                    return o

                return f(core.norm(s))

            try:
                v = lib.load(raw, unicode_strings=force)
                x = v.entries[2]
                x.decompile()
                got = core.norm(x.data)
            except UnicodeDecodeError as err:
                # bytes of UTF-8 text that don't exist in Windows-1252
                if utf and "charmap" in str(err) and ctx.known_finding(
                    KF, "text of Mac files (and with --unicode-strings) is decoded as Windows-1252"
                ):
                    ctx.ev("known: undecodable")
                    continue
                ctx.violation(f"{what}: {err!r}")
                continue
            except Exception as err:
                ctx.violation(f"{what}: {err!r}")
                continue
            ctx.case((eid, platform, force, b), not t.isascii())
            ctx.ev(f"decoded {enc}")
            d = lib.content_diff(eid, got, s)
            if d:
                if utf and lib.content_diff(eid, got, cp1252_view()) is None:
                    known = ctx.known_finding(
                        KF, "text of Mac files (and with --unicode-strings) is decoded as Windows-1252"
                    )
                    ctx.ev("known: mojibake")
                if not known:
                    ctx.violation(f"{what}: {d}", bytes=b, got=got)
            x.compile()
            if x.data != b:
                ctx.violation(f"{what}: recompiled as {core.short(x.data.hex(), 200)}", bytes=b)
            ctx.ev("recompiled")
            # spaces belong to the text; \0 only pads names, the end of lines is free
            if eid in ref.STRING and eid != 1121:
                pad = r.choice((" ", "  "))
                for raw_t in (b + pad.encode(), pad.encode() + b, b" " + b + b"  "):
                    v2 = lib.load(ref.container(pro + [(eid, raw_t), (2, b"")]), unicode_strings=force)
                    x = v2.entries[2]
                    try:
                        x.decompile()
                    except UnicodeDecodeError:
                        continue
                    if isinstance(x.data, str):
                        ctx.expect(len(x.data) - len(x.data.strip(" ")) == len(raw_t) - len(raw_t.strip(b" ")),
                                   f"spaces around {what}: {x.data!r}", bytes=raw_t)
                    x.compile()
                    ctx.expect(x.data == raw_t, f"spaces around {what}: recompiled as {x.data!r}", bytes=raw_t)
                    ctx.ev("spaces")
            elif utf or b.count(t.encode(enc)) == 0:
                pass
            else:
                # also where the length is given
                i = [c[0] for c in carriers((t, b""), (t2, b""))].index(eid)
                pad = r.choice((" ", "  "))
                for w in (t + pad, pad + t, pad + t + "  "):
                    _, s3, b3 = carriers((w, w.encode(enc)), (t2, t2.encode(enc)))[i]
                    x = lib.load(ref.container(pro + [(eid, b3), (2, b"")])).entries[2]
                    x.decompile()
                    d = lib.content_diff(eid, x.data, s3)
                    ctx.expect(d is None, f"spaces around {what}: {d}", bytes=b3)
                    x.compile()
                    ctx.expect(x.data == b3, f"spaces around {what}: recompiled as {x.data!r}", bytes=b3)
                    ctx.ev("spaces in names")
            # bytes which don't exist in Windows-1252 are refused, or kept
            tb = t.encode(enc)
            if not utf and len(tb) > 1 and b.count(tb) == 1:
                at = b.index(tb)
                bad = b[:at] + bytes([r.choice((0x81, 0x8D, 0x8F, 0x90, 0x9D))]) + b[at + 1:]
                try:
                    # reading the file decodes some of the entries
                    x = None
                    x = lib.load(ref.container(pro + [(eid, bad), (2, b"")])).entries[2]
                    x.decompile()
                except UnicodeDecodeError:
                    ctx.expect(x is None or x.data == bad, f"undefined byte in {what}: the data was changed")
                    ctx.ev("undefined bytes refused")
                except Exception as err:
                    ctx.violation(f"undefined byte in {what}: {err!r}", bytes=bad)
                else:
                    try:
                        x.compile()
                    except UnicodeError as err:
                        ctx.violation(f"undefined byte in {what}: read as {core.short(x.data, 200)}, "
                                      f"but not written: {err!r}", bytes=bad)
                    else:
                        ctx.expect(x.data == bad,
                                   f"undefined byte in {what}: was replaced, {bad!r} became {x.data!r}")
        # text that doesn't exist in the encoding isn't replaced silently
        if platform == "windows" and not force:
            v = lib.load(ref.container([(ref.FLVERSION, ref.g_flversion(ref.Env(r, 1, platform))[1]), (ref.MASTERCOUNT, ref.u16(1)), (2, b"")]))
            bad = "a" + r.choice("Ж日ł\u2212")
            for eid, s, _ in carriers((bad, b""), ("b", b"b")):
                x = lib.new_entry(v, eid, core.norm(s) if eid != 2001 else s)
                try:
                    x.compile()
                except UnicodeEncodeError:
                    ctx.ev("refused to encode")
                except Exception as err:
                    ctx.violation(f"{bad!r} in entry {eid}: {err!r}")
                else:
                    ctx.violation(f"{bad!r} in entry {eid} was written as {x.data!r}")
        if n <= 2:
            ctx.sample({"text": t, "platform": platform})
        if len(ctx.violations) > 10:
            return
    ctx.require(recompiled=1000, **{"decoded cp1252": 500, "refused to encode": 100})
