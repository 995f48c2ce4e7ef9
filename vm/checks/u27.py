"""Font info of the master UFOs."""
import datetime

from vm import ufox

BUDGET = (12, 300)
GENS = [dict(focus=("info", "wide"), nglyphs=1), dict(focus=("info", "mm"), nglyphs=1),
        dict(focus=("info", "fontnote", "wide"), nglyphs=2), dict(nglyphs=1)]
PLAIN = {
    1025: ("postscriptFullName",), 1026: ("postscriptFontName",), 1027: ("styleMapFamilyName",),
    1024: ("familyName", "openTypeNamePreferredFamilyName"), 1029: ("italicAngle",),
    1037: ("copyright",), 1038: ("openTypeNameDescription",), 1039: ("openTypeNameManufacturer",),
    1044: ("postscriptUniqueID",), 1061: ("trademark",), 1062: ("openTypeNameDesigner",),
    1063: ("openTypeNameDesignerURL",), 1064: ("openTypeNameManufacturerURL",),
    1066: ("postscriptDefaultCharacter",), 1069: ("openTypeNameLicense",),
    1070: ("openTypeNameLicenseURL",), 1090: ("macintoshFONDFamilyID",),
    1092: ("macintoshFONDName",), 1118: ("openTypeOS2Panose",), 1121: ("openTypeOS2VendorID",),
    1127: ("postscriptWeightName",), 1128: ("openTypeNameVersion",),
    1129: ("openTypeNameUniqueID",), 1130: ("versionMajor",), 1131: ("versionMinor",),
    1132: ("year",), 1135: ("unitsPerEm",),
    1137: ("styleName", "openTypeNamePreferredSubfamilyName"), 1140: ("openTypeNameSampleText",),
    1270: ("openTypeHheaLineGap",), 1278: ("openTypeHheaAscender",),
    1279: ("openTypeHheaDescender",), 2021: ("openTypeOS2UnicodeRanges",), 2025: ("note",),
    1031: ("postscriptUnderlineThickness",),
}
TT = {
    "os2_us_width_class": "openTypeOS2WidthClass", "head_lowest_rec_ppem": "openTypeHeadLowestRecPPEM",
    "os2_y_strikeout_size": "openTypeOS2StrikeoutSize",
    "os2_y_strikeout_position": "openTypeOS2StrikeoutPosition",
    "os2_s_typo_ascender": "openTypeOS2TypoAscender",
    "os2_s_typo_descender": "openTypeOS2TypoDescender",
    "os2_s_typo_line_gap": "openTypeOS2TypoLineGap", "os2_us_win_ascent": "openTypeOS2WinAscent",
    "os2_us_win_descent": "openTypeOS2WinDescent",
}
for a in ("sub", "super"):
    for x in "xy":
        for s in ("size", "offset"):
            TT[f"os2_y_{a}script_{x}_{s}"] = f"openTypeOS2{a.title()}script{x.upper()}{s.title()}"
PS = {"ascender": "ascender", "descender": "descender", "x_height": "xHeight",
      "cap_height": "capHeight"}
PSH = {"blue_scale": "postscriptBlueScale", "blue_shift": "postscriptBlueShift",
       "blue_fuzz": "postscriptBlueFuzz"}
BLUES = {1530: ("blue_values", "postscriptBlueValues"), 1531: ("other_blues", "postscriptOtherBlues"),
         1532: ("family_blues", "postscriptFamilyBlues"),
         1533: ("family_other_blues", "postscriptFamilyOtherBlues"),
         1534: ("stem_snap_h", "postscriptStemSnapH"), 1535: ("stem_snap_v", "postscriptStemSnapV")}


SPECIAL = ("postscriptIsFixedPitch", "openTypeOS2WeightClass", "postscriptUnderlinePosition",
           "openTypeOS2Selection", "styleMapStyleName", "openTypeGaspRangeRecords",
           "openTypeNameRecords", "openTypeHeadFlags", "openTypeOS2Type", "openTypeOS2FamilyClass",
           "openTypeOS2CodePageRanges", "openTypeHeadCreated", "postscriptNominalWidthX",
           "postscriptForceBold", "postscriptDefaultWidthX")
EVERY = sorted({a for x in PLAIN.values() for a in x} | set(TT.values()) | set(PS.values())
               | set(PSH.values()) | {x[1] for x in BLUES.values()} | set(SPECIAL))
# what attributes are without a source, except for nothing, zero or empty
PLACEHOLDERS = {"familyName": "Untitled", "postscriptFontName": "Untitled-Regular",
                "postscriptFullName": "Untitled Regular", "postscriptWeightName": "Regular",
                "styleMapFamilyName": "Untitled", "styleMapStyleName": "regular",
                "styleName": "Regular", "openTypeOS2FamilyClass": [0, 0],
                "openTypeOS2WeightClass": 400, "openTypeOS2WidthClass": 5}


def bits(n):
    return [i for i in range(64) if n >> i & 1]


def expected(src, mi, pshints):
    """{attribute: value or a predicate}"""
    f, want = src.font, {}
    for eid, attrs in PLAIN.items():
        if eid in f and f[eid] is not None:
            for a in attrs:
                want[a] = f[eid]
    if 1034 in f:
        want["postscriptIsFixedPitch"] = bool(f[1034])
    if 1048 in f:
        want["openTypeOS2WeightClass"] = max(1, min(1000, f[1048]))
    if f.get(1030) is not None or f.get(1031) is not None:
        # the one that's missing is zero
        want["postscriptUnderlinePosition"] = (f.get(1030) or 0) + round(0.5 * (f.get(1031) or 0))
    if 1267 in f:
        b = bits(f[1267])
        want["openTypeOS2Selection"] = [x for x in b if x not in (0, 5, 6)]
        style = ("regular" if 6 in b and 0 not in b else "bold" if 5 in b else "")
        style += " italic" if 0 in b else ""
        if style:
            want["styleMapStyleName"] = style.strip() if not {0, 5, 6} <= set(b) \
                else lambda x: x in ("italic", "bold italic")  # contradictory
    if 1265 in f:
        want["openTypeGaspRangeRecords"] = [
            {"rangeMaxPPEM": r["maxPpem"], "rangeGaspBehavior": bits(r["flags"])} for r in f[1265]]
    if 1138 in f:
        want["openTypeNameRecords"] = [
            dict(zip(("nameID", "platformID", "encodingID", "languageID", "string"), r))
            for r in f[1138]]
    tt = f.get(1264)
    if tt:
        for k, a in TT.items():
            if k in tt:
                want[a] = tt[k]
        if "head_flags" in tt:
            want["openTypeHeadFlags"] = tt["head_flags"].get("flags", [])
        if "os2_fs_type" in tt:
            want["openTypeOS2Type"] = bits(tt["os2_fs_type"])
        if "os2_s_family_class" in tt:
            want["openTypeOS2FamilyClass"] = [tt["os2_s_family_class"] >> 8,
                                              tt["os2_s_family_class"] & 255]
        if "Codepages" in tt:
            c = tt["Codepages"]
            want["openTypeOS2CodePageRanges"] = bits(
                c.get("os2_ul_code_page_range1", 0) | c.get("os2_ul_code_page_range2", 0) << 32)
        if "head_creation" in tt:
            # the library's (tested) zero point is 2082841200 s before 1970
            d = datetime.datetime(1970, 1, 1) + datetime.timedelta(
                seconds=max(0, tt["head_creation"] % 2**32 - 2082841200))
            want["openTypeHeadCreated"] = d.strftime("%Y/%m/%d %H:%M:%S")
        if tt.get("Average Width"):
            # negative numbers are no widths
            want["postscriptNominalWidthX"] = abs(tt["Average Width"])
    ps = src.multi[1536][mi] if mi < len(src.multi[1536]) else None
    if ps:
        for k, a in PS.items():
            want[a] = ps[k]
        if pshints:
            for k, a in PSH.items():
                want[a] = ps[k]
            want["postscriptForceBold"] = bool(ps["force_bold"])
            for eid, (k, a) in BLUES.items():
                n = f.get(eid, 0)
                want[a] = ps[k][:n]
        else:
            for a in PSH.values():
                want[a] = None
            for _, a in BLUES.values():
                want[a] = []
    return want


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {k: plain(y) for k, y in x.items()}
    for cls in ("GaspRangeRecord", "NameRecord"):
        if type(x).__name__ == cls:
            return {k: plain(getattr(x, k)) for k in
                    ("rangeMaxPPEM", "rangeGaspBehavior", "nameID", "platformID", "encodingID",
                     "languageID", "string") if hasattr(x, k)}
    if type(x).__name__ == "WidthClass" or type(x).__mro__[-2].__name__ == "int":
        return int(x)
    return x


def run(ctx):
    ctx.rule = (
        "font info of every master of real and generated fonts, converted with and without "
        "PostScript hints: every attribute that has a source (names, versions, metrics, flags, "
        "OS/2 and head values, gasp, dates, name records, alignment zones) against its value"
    )
    for label, src, v, raw in ufox.sources(ctx, 60, GENS):
        r = ctx.sub("opt", label)
        pshints = r.random() < 0.7
        ok, res = ctx.guard(f"{label}: conversion", ufox.convert, v, pshints=pshints,
                            minimal=r.random() < 0.3,
                            **ufox.spare(r, "base64", "add_kerning_groups", "move_groups"), detail={"file": raw})
        if not ok:
            continue
        _, ufos, _ = res
        for mi in range(src.m):
            at = f"{label}: master {mi} (pshints={pshints})"
            info = ufos[mi].info
            want = expected(src, mi, pshints)
            for a in EVERY:
                if a in want:
                    continue
                got = plain(getattr(info, a, None))
                ctx.expect(not got or got == PLACEHOLDERS.get(a),
                           f"{at}: {a} is {got!r}, but the source has no value", file=raw)
                ctx.ev("attributes without a source")
            for a, w in want.items():
                got = plain(getattr(info, a, None))
                ctx.ev(a)
                if callable(w):
                    good = w(got)
                else:
                    w = plain(w)
                    good = got == w or (not got and not w and got in (None, [], "") and w in (None, []))
                if not good:
                    ctx.violation(f"{at}: {a} is {got!r}, expected "
                                  f"{'italic' if callable(w) else repr(w)}",
                                  file=raw, source=[src.font.get(k) for k in (1030, 1031, 1264)])
            ctx.case((label, ctx.seed, mi, pshints))
        if len(ctx.violations) > 10:
            return
    ctx.require(**{a: 10 for attrs in PLAIN.values() for a in attrs})
    ctx.require(**{a: 10 for a in list(TT.values()) + list(PS.values()) + list(PSH.values())
                   + [x[1] for x in BLUES.values()]
                   + ["openTypeHeadCreated", "openTypeOS2Type", "openTypeOS2FamilyClass",
                      "openTypeOS2CodePageRanges", "openTypeHeadFlags", "openTypeGaspRangeRecords",
                      "openTypeNameRecords", "styleMapStyleName", "postscriptUnderlinePosition",
                      "attributes without a source"]})
