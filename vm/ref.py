"""Independent model of the VFB binary format.

Written from the format, not by calling the library: a value codec, a container
reader/writer, and for each entry type a generator which yields both the structured
content (in the library's documented decompiled form) and its bytes.
"""
import math
import struct

# ---------------------------------------------------------------- value codec


def val(n, long=False):
    """Type-1 charstring style number, shortest form unless `long`."""
    if not long:
        if -107 <= n <= 107:
            return bytes([n + 139])
        if 108 <= n <= 1131:
            m = n - 108
            return bytes([247 + (m >> 8), m & 255])
        if -1131 <= n <= -108:
            m = -n - 108
            return bytes([251 + (m >> 8), m & 255])
    return b"\xff" + struct.pack(">I", n & 0xFFFFFFFF)


def rdval(b, i, signed=True):
    """-> (value, next index); raises IndexError/ValueError on bad data"""
    c = b[i]
    if c < 32:
        raise ValueError(f"byte {c} is no number")
    if c <= 246:
        return c - 139, i + 1
    if c <= 250:
        return (c - 247) * 256 + b[i + 1] + 108, i + 2
    if c <= 254:
        return -(c - 251) * 256 - b[i + 1] - 108, i + 2
    if i + 5 > len(b):
        raise IndexError
    return struct.unpack(">i" if signed else ">I", b[i + 1 : i + 5])[0], i + 5


# ------------------------------------------------------------------ container

SIG = struct.pack("<I", 0x464C571A)


def header(minor=4, offset=44):
    h = SIG + bytes([0x31, 0x30, 3, minor]) + struct.pack("<I", offset)
    return h + bytes(offset - 12)


def frame(eid, data, force_long=False):
    if len(data) > 0xFFFF or force_long:
        return struct.pack("<HI", eid | 0x8000, len(data)) + data
    return struct.pack("<HH", eid, len(data)) + data


FILE_END = 2
MMKERNPAIR = 1410


def read_container(raw, num_masters=None):
    """-> (header bytes, [(id, data)], trailing bytes)"""
    offset = struct.unpack("<I", raw[8:12])[0]
    i = offset
    entries = []
    nm = num_masters
    while i + 4 <= len(raw):
        (eid,) = struct.unpack("<H", raw[i : i + 2])
        if eid & 0x8000:
            (size,) = struct.unpack("<I", raw[i + 2 : i + 6])
            i += 6
            eid &= 0x7FFF
        else:
            (size,) = struct.unpack("<H", raw[i + 2 : i + 4])
            i += 4
        if eid == MMKERNPAIR:
            size = 8 + 2 * (nm or 0)
        if i + size > len(raw):
            raise ValueError("truncated entry")
        data = raw[i : i + size]
        i += size
        entries.append((eid, data))
        if eid == MASTERCOUNT and nm is None:
            nm = struct.unpack("<H", data)[0]
        if eid == FILE_END:
            break
    return raw[:offset], entries, raw[i:]


def container(entries, minor=4):
    return header(minor) + b"".join(frame(e, d) for e, d in entries)


# entry ids which set the context of others
FLVERSION = 10
MASTERCOUNT = 1503
TTSTEMS = 1269

# --------------------------------------------------------------- entry kinds
HEX = (1, 4, 262, 518, 257, 1261, 1262, 1263, 2030, 513, 271, 527, 272, 528, 5, 2)
STRING = (
    1026, 1046, 1038, 1025, 1027, 1024, 1056, 1092, 1028, 1065, 1069, 1070, 1037, 1061,
    1062, 1063, 1064, 1039, 1128, 1129, 1127, 1137, 1139, 1140, 1059, 2025, 2016, 1277,
    1514, 1504, 1066, 2034, 2015, 2017,
)  # fmt: skip
UINT16 = (
    1502, 1503, 1034, 1031, 1054, 1134, 1132, 1130, 1131, 1135, 1090, 1530, 1531, 1532,
    1533, 1534, 1535, 1267, 1057, 1058, 1060, 1270, 1272, 1274, 1275, 1604, 2022, 1513,
    2012,
)  # fmt: skip
INT16 = (1048, 1030, 1278, 1279, 2032)
DOUBLE = (1029, 1047)
DOUBLES = (1517, 1247)

# names of the entries, as in the library's table and its JSON
NAMES = {
    1: "Block File Data Start", 2: "Block File Data End", 4: "Block Font Start",
    5: "Block Font End", 10: "FL Version", 257: "Block Font Info Start", 262: "Block Names Start",
    271: "Block MM Font Info Start", 272: "Block MM Kerning Start", 513: "Block Font Info End",
    518: "Block Names End", 527: "Block MM Font Info End", 528: "Block MM Kerning End",
    1024: "pref_family_name", 1025: "full_name", 1026: "font_name", 1027: "family_name",
    1028: "weight", 1029: "italic_angle", 1030: "underline_position", 1031: "underline_thickness",
    1034: "is_fixed_pitch", 1037: "copyright", 1038: "notice", 1039: "source", 1044: "unique_id",
    1046: "version", 1047: "slant_angle", 1048: "weight_code", 1054: "ms_charset",
    1056: "menu_name", 1057: "pcl_id", 1058: "vp_id", 1059: "pcl_chars_set", 1060: "ms_id",
    1061: "trademark", 1062: "designer", 1063: "designer_url", 1064: "vendor_url", 1065: "width",
    1066: "default_character", 1068: "Collection", 1069: "License", 1070: "License URL",
    1090: "fond_id", 1092: "apple_name", 1093: "PostScript Hinting Options", 1118: "panose",
    1121: "vendor", 1127: "style_name", 1128: "tt_version", 1129: "tt_u_id", 1130: "version_major",
    1131: "version_minor", 1132: "year", 1133: "xuid", 1134: "xuid_num", 1135: "upm",
    1136: "PCLT Table", 1137: "pref_style_name", 1138: "fontnames", 1139: "mac_compatible",
    1140: "Sample Text", 1141: "Custom CMAPs", 1247: "Primary Instance Locations",
    1250: "unicodes", 1253: "Glyph Unicode Non-BMP", 1254: "Primary Instances",
    1255: "TrueType Zones", 1261: "cvt", 1262: "prep", 1263: "fpgm", 1264: "ttinfo", 1265: "gasp",
    1266: "TrueType Stem PPEMs 2 And 3", 1267: "font_style", 1268: "TrueType Stem PPEMs",
    1269: "TrueType Stems", 1270: "hhea_line_gap", 1271: "vdmx", 1272: "stemsnaplimit",
    1273: "TrueType Zone Deltas", 1274: "zoneppm", 1275: "codeppm", 1276: "features",
    1277: "OpenType Class", 1278: "hhea_ascender", 1279: "hhea_descender", 1294: "Global Guides",
    1295: "Global Mask", 1296: "Global Guide Properties", 1410: "MMKernPair", 1500: "Encoding",
    1501: "Encoding Default", 1502: "MM Encoding Type", 1503: "Master Count", 1504: "Master Name",
    1505: "Master Location", 1513: "Axis Count", 1514: "Axis Name", 1515: "Axis Mappings Count",
    1516: "Axis Mappings", 1517: "weight_vector", 1523: "Anisotropic Interpolation Mappings",
    1524: "TrueType Stem PPEMs 1", 1530: "blue_values_num", 1531: "other_blues_num",
    1532: "family_blues_num", 1533: "family_other_blues_num", 1534: "stem_snap_h_num",
    1535: "stem_snap_v_num", 1536: "PostScript Info", 1604: "dropoutppm", 1742: "Mapping Mode",
    1743: "Font Options", 1744: "Export Options", 2001: "Glyph", 2007: "image", 2008: "Links",
    2009: "mask", 2010: "Glyph Hinting Options", 2011: "mask.metrics", 2012: "mark",
    2013: "Glyph Bitmaps", 2014: "TrueTypeTable", 2015: "glyph.customdata", 2016: "customdata",
    2017: "glyph.note", 2018: "Glyph GDEF Data", 2019: "Glyph Sketch",
    2020: "Glyph Anchors Supplemental", 2021: "unicoderanges", 2022: "Export PCLT Table",
    2023: "VSB", 2024: "OpenType Metrics Class Flags", 2025: "note",
    2026: "OpenType Kerning Class Flags", 2027: "Glyph Origin", 2028: "mask.metrics_mm",
    2029: "Glyph Anchors MM", 2030: "Font Flags", 2031: "Glyph Guide Properties",
    2032: "Measurement Line", 2034: "Custom Dict",
}
KIND = {}
for _k, _ids in (
    ("hex", HEX), ("string", STRING), ("uint16", UINT16), ("int16", INT16),
    ("double", DOUBLE), ("doubles", DOUBLES), ("int32", (1044,)), ("uint32s", (1133,)),
    ("glyphenc", (1500, 1501)), ("flversion", (10,)), ("panose", (1118,)),
    ("vendor", (1121,)), ("pshint", (1093,)), ("vlistcount", (1068,)),
    ("gasp", (1265,)), ("ttinfo", (1264,)), ("vdmx", (1271,)), ("ppems23", (1266,)),
    ("ppems", (1268,)), ("ttstems", (1269,)), ("ppems1", (1524,)), ("ttzones", (1255,)),
    ("uniranges", (2021,)), ("zonedeltas", (1273,)), ("names", (1138,)),
    ("cmaps", (1141,)), ("pclt", (1136,)), ("metricsflags", (2024,)),
    ("kernflags", (2026,)), ("bintable", (2014,)), ("features", (1276,)),
    ("aniso", (1523,)), ("axismapcount", (1515,)), ("axismap", (1516,)),
    ("masterloc", (1505,)), ("primaries", (1254,)), ("psinfo", (1536,)),
    ("guides", (1294,)), ("guideprops", (1296, 2031)), ("globalmask", (1295,)),
    ("glyph", (2001,)), ("links", (2008,)), ("image", (2007,)), ("bitmaps", (2013,)),
    ("vsb", (2023,)), ("sketch", (2019,)), ("glyphhint", (2010,)), ("mask", (2009,)),
    ("maskmetrics", (2011,)), ("maskmetricsmm", (2028,)), ("origin", (2027,)),
    ("unicodes", (1250,)), ("unicodes32", (1253,)), ("gdef", (2018,)),
    ("anchorprops", (2020,)), ("anchors", (2029,)), ("fontoptions", (1743,)),
    ("exportoptions", (1744,)), ("mappingmode", (1742,)), ("mmkern", (1410,)),
):  # fmt: skip
    for _i in _ids:
        KIND[_i] = _k


class Env:
    """What an entry needs to know about the file around it."""

    def __init__(self, rng, num_masters=1, platform="macos", nv=0, nh=0):
        self.rng = rng
        self.m = num_masters
        self.gm = num_masters  # masters of a glyph or mask: they carry their own number
        self.platform = platform
        self.nv, self.nh = nv, nh
        # style of the bytes: canonical, or with legal variations
        self.canon = True
        self.big = False  # include extreme values

    # random material
    def n(self, lo=-2000, hi=2000):
        r = self.rng
        k = r.random()
        if k < 0.35:
            v = r.randint(-120, 120)
        elif k < 0.5:
            v = r.choice((-1132, -1131, -1130, -364, -363, -109, -108, -107, -1, 0, 1, 106,
                          107, 108, 109, 363, 364, 619, 620, 875, 876, 1130, 1131, 1132))
        elif k < 0.9 or not self.big:
            v = r.randint(lo, hi)
        else:
            v = r.choice((r.randint(-(2**31), 2**31 - 1), 2**31 - 1, -(2**31), 65535, 65536,
                          -32769, 32768))
        if lo >= 0:
            v = abs(v) if v != -(2**31) else 0
        return v

    def more(self, k):
        """Mostly k, now and then far more: no list of the format is limited"""
        if self.rng.random() < 0.004:
            return self.rng.choice((50, 66, 130, 270, 300, 700))
        return k

    def cnt(self, hi=4):
        return self.more(self.rng.choice((0, 1, 1, 2, self.rng.randint(0, hi))))

    def v(self, n):
        return val(n, long=(not self.canon and self.rng.random() < 0.2))

    def text(self, maxlen=12, nonempty=False, extra=" ._-,:;()&%\"'<>/\\#@"):
        r = self.rng
        alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789" + extra
        if self.platform == "windows":
            alpha += "äöüßéèñ©®€“”Šÿ¡"
        ln = r.randint(1 if nonempty else 0, maxlen)
        if not self.canon and r.random() < 0.02:
            ln = r.randint(120, 400)
        return "".join(r.choice(alpha) for _ in range(ln))

    def name(self, nonempty=True):
        return self.text(10, nonempty, extra="._-")

    def enc(self, s):
        return s.encode("cp1252")

    def pstr(self, s):
        b = self.enc(s)
        return self.v(len(b)) + b


def u16(n):
    return struct.pack("<H", n)


def i16(n):
    return struct.pack("<h", n)


def u32(n):
    return struct.pack("<I", n)


def i32(n):
    return struct.pack("<i", n)


def f64(x):
    return struct.pack("<d", x)


def rdouble(r):
    return r.choice((0.0, 1.0, -12.5, 0.1, 1e-9, 123456.789, -0.0, 2 / 3,
                     r.uniform(-1000, 1000), r.uniform(-1, 1)))


def g_hex(e):
    b = bytes(e.rng.randrange(256) for _ in range(e.rng.choice((0, 0, 1, 3, 20, 300))))
    return b.hex(), b


def g_string(e):
    s = e.text(40)
    if e.rng.random() < 0.2:
        s += "\r\n" + e.text(10)
    if e.rng.random() < 0.1:
        s += " "
    b = e.enc(s)
    if not e.canon and e.rng.random() < 0.2:
        b += b"\0" * e.rng.randint(1, 3)  # NUL padding is no content
    return s, b


def g_vendor(e):
    s = "".join(e.rng.choice("ABCDEFgh 12.é" if e.platform == "windows" else "ABCDEFgh 12.")
                for _ in range(e.rng.choice((0, 1, 2, 3, 4, 4, 5, 9))))
    b = e.enc(s)
    return s, b + b"\0" * (4 - len(b))


def g_uint16(e):
    n = e.rng.choice((0, 1, 255, 256, 32767, 32768, 65535, e.rng.randrange(65536)))
    return n, u16(n)


def g_int16(e):
    n = e.rng.choice((0, 1, -1, 255, 256, 32767, -32768, e.rng.randint(-32768, 32767)))
    return n, i16(n)


def g_int32(e):
    n = e.rng.choice((0, -1, 2**31 - 1, -(2**31), e.rng.randint(-(2**31), 2**31 - 1)))
    return n, i32(n)


def g_double(e):
    x = rdouble(e.rng)
    return x, f64(x)


def g_doubles(e):
    xs = [rdouble(e.rng) for _ in range(e.more(e.rng.choice((0, 1, 4, 16))))]
    return xs, b"".join(map(f64, xs))


def g_uint32s(e):
    xs = [e.rng.choice((0, 1, 2**32 - 1, e.rng.randrange(2**32))) for _ in range(e.cnt(20))]
    return xs, b"".join(map(u32, xs))


def g_glyphenc(e):
    gid = e.rng.choice((0, 255, 256, 65535, e.rng.randrange(65536)))
    nm = e.name()
    if e.rng.random() < 0.2:
        nm += "é"  # always cp1252
    return (gid, nm), u16(gid) + nm.encode("cp1252")


def g_flversion(e):
    plat = e.platform
    ver = tuple(e.rng.randrange(256) for _ in range(4))
    owner = e.n(0, 100000)
    s = {"platform": plat, "version": ver, "owner": owner}
    parts = [
        b"\x01" + e.v({"windows": 0, "macos": 1}[plat]),
        b"\x02\xff" + bytes(ver),
        b"\x03" + e.v(owner),
    ]
    if not e.canon:
        e.rng.shuffle(parts)
    return s, b"".join(parts) + b"\0"


def g_panose(e):
    xs = [e.rng.choice((0, 2, 15, 127, -1, -128)) for _ in range(10)]
    return xs, struct.pack("10b", *xs)


def bits(e, width, p=0.3):
    return [i for i in range(width) if e.rng.random() < p]


def g_pshint(e):
    bs = bits(e, 16)
    s = {"other": [b for b in bs if b != 0]}
    if 0 in bs:
        s["generate_flex"] = 1
    return s, u16(sum(1 << b for b in bs))


def g_glyphhint(e):
    bs = bits(e, 32)
    names = {29: "hint_replacement", 30: "horizontal_3_stem", 31: "vertical_3_stem"}
    s = {names[b]: 1 for b in bs if b in names}
    s["other"] = [b for b in bs if b not in names]
    return s, u32(sum(1 << b for b in bs))


def g_vlistcount(e):
    xs = [e.n() for _ in range(e.cnt(8))]
    return xs, e.v(len(xs)) + b"".join(map(e.v, xs))


def g_vsb(e):
    xs = [e.n() for _ in range(e.m)]
    return xs, b"".join(map(e.v, xs))


def g_gasp(e):
    s = [
        {"maxPpem": e.rng.choice((8, 65535, e.rng.randrange(65536))), "flags": e.rng.randrange(16)}
        for _ in range(e.cnt())
    ]
    return s, b"".join(u16(x["maxPpem"]) + u16(x["flags"]) for x in s)


TTINFO = [
    (0x33, "max_zones"), (0x34, "max_twilight_points"), (0x35, "max_storage"),
    (0x36, "max_function_defs"), (0x37, "max_instruction_defs"), (0x38, "max_stack_elements"),
    (0x39, "head_flags"), (0x3A, "head_units_per_em"), (0x3B, "head_mac_style"),
    (0x3C, "head_lowest_rec_ppem"), (0x56, "head_creation"), (0x57, "head_creation2"),
    (0x3D, "head_font_direction_hint"), (0x3E, "os2_us_weight_class"),
    (0x3F, "os2_us_width_class"), (0x40, "os2_fs_type"), (0x41, "os2_y_subscript_x_size"),
    (0x42, "os2_y_subscript_y_size"), (0x43, "os2_y_subscript_x_offset"),
    (0x44, "os2_y_subscript_y_offset"), (0x45, "os2_y_superscript_x_size"),
    (0x46, "os2_y_superscript_y_size"), (0x47, "os2_y_superscript_x_offset"),
    (0x48, "os2_y_superscript_y_offset"), (0x49, "os2_y_strikeout_size"),
    (0x4A, "os2_y_strikeout_position"), (0x4B, "os2_s_family_class"),
    (0x4C, "OpenTypeOS2Panose"), (0x4D, "os2_s_typo_ascender"),
    (0x4E, "os2_s_typo_descender"), (0x4F, "os2_s_typo_line_gap"),
    (0x50, "os2_fs_selection"), (0x51, "os2_us_win_ascent"), (0x52, "os2_us_win_descent"),
    (0x5C, "Average Width"), (0x53, "Hdmx PPMs 1"), (0x58, "Hdmx PPMs 2"),
    (0x54, "Codepages"),
]  # fmt: skip
TTREQ = {0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x4C, 0x54}
TTOPT = {0: "use_custom_tt_values", 1: "create_vdmx", 2: "add_null_cr_space"}


def g_ttinfo(e):
    r = e.rng
    s, parts = {}, []
    omit = r.random() < 0.3
    for k, nm in TTINFO:
        if omit and k not in TTREQ and r.random() < 0.3:
            continue
        if k == 0x39:
            fl, op = bits(e, 16), bits(e, 5)
            if e.big and r.random() < 0.3:
                op = bits(e, 16)
            s[nm] = {"flags": fl, "options": [TTOPT.get(b, str(b)) for b in op]}
            n = sum(1 << b for b in fl) + (sum(1 << b for b in op) << 16)
            parts.append((k, e.v(n)))
        elif k == 0x4C:
            s[nm] = [r.randrange(256) for _ in range(10)]
            parts.append((k, bytes(s[nm])))
        elif k in (0x53, 0x58):
            s[nm] = [r.randrange(256) for _ in range(e.cnt(10))]
            parts.append((k, e.v(len(s[nm])) + bytes(s[nm])))
        elif k == 0x54:
            a, b = (r.choice((0, 1, 2**31, 2**32 - 1, r.randrange(2**32))) for _ in "ab")
            s[nm] = {"os2_ul_code_page_range1": a, "os2_ul_code_page_range2": b}
            parts.append((k, e.v(a) + e.v(b)))
        else:
            s[nm] = e.n(-40000, 70000)
            parts.append((k, e.v(s[nm])))
    if not e.canon:
        r.shuffle(parts)
    return s, b"".join(bytes([k]) + b for k, b in parts) + b"\x32"


def g_vdmx(e):
    s = [{"pelHeight": e.n(0), "max": e.n(), "min": e.n()} for _ in range(e.cnt(6))]
    return s, e.v(len(s)) + b"".join(
        e.v(x["pelHeight"]) + e.v(x["max"]) + e.v(x["min"]) for x in s
    )


def _stems(e, keys, counts=None):
    s = {}
    b = b""
    for i, d in enumerate(("ttStemsV", "ttStemsH")):
        n = e.cnt(5) if counts is None else counts[i]
        L = []
        if counts is None:
            b += e.v(n)
        for j in range(n):
            rd = {k: e.n(0, 2000) for k in keys}
            L.append({"stem": j, "round": rd})
            b += b"".join(e.v(rd[k]) for k in keys)
        s[d] = L
    return s, b


def g_ppems(e):
    return _stems(e, (2, 3, 4, 5))


def g_ppems23(e):
    return _stems(e, (2, 3))


def g_ppems1(e):
    return _stems(e, (1,), (e.nv, e.nh))


def g_ttstems(e, counts=None):
    s, b = {}, b""
    for i, d in enumerate(("ttStemsV", "ttStemsH")):
        n = e.cnt(5) if counts is None else counts[i]
        b += e.v(n)
        s[d] = []
        for _ in range(n):
            st = {"value": e.n(0), "name": e.name(False)[:200], "round": {6: e.n(0)}}
            nb = e.enc(st["name"])
            b += e.v(st["value"]) + bytes([len(nb) & 255]) + nb + e.v(st["round"][6])
            s[d].append(st)
    return s, b


def g_ttzones(e):
    s, b = {}, b""
    for d in ("ttZonesT", "ttZonesB"):
        n = e.cnt(5)
        b += e.v(n)
        s[d] = []
        for _ in range(n):
            z = {"position": e.n(), "value": e.n(), "name": e.name(False)}
            b += e.v(z["position"]) + e.v(z["value"]) + e.pstr(z["name"])
            s[d].append(z)
    return s, b


def g_zonedeltas(e):
    trip = {}
    for _ in range(e.cnt(10)):
        trip[(e.rng.randrange(12), e.n(0, 200))] = e.n(-100, 100)
    items = sorted((a, p, x) for (a, p), x in trip.items())
    s = {}
    for a, p, x in items:
        s.setdefault(a, {})[p] = x
    if not e.canon:
        e.rng.shuffle(items)
    return s, e.v(len(items)) + b"".join(e.v(a) + e.v(p) + e.v(x) for a, p, x in items)


def g_uniranges(e):
    bs = bits(e, 128, 0.1)
    return bs, sum(1 << b for b in bs).to_bytes(16, "little")


MACROMAN = "AÄÇÉÑÖÜáàâäãåçéèêëí†°¢£§•¶ß®©™Ωæø¿¡¬√ƒ≈∆«»ŒœŸ⁄€‹›ﬁﬂ‡·„‰ÂÊ"


def g_names(e):
    s, b = [], b""
    n = e.cnt(5)
    b += e.v(n)
    for _ in range(n):
        pl, en = e.rng.choice(((1, 0), (3, 1), (3, 1), (0, 3), (1, 1)))
        rec = [e.rng.choice((0, 1, 2, 4, 16, 255, 256, 300)), pl, en, e.rng.choice((0, 1033, 1031))]
        ln = e.more(e.rng.randint(0, 12)) if e.rng.random() < 0.9 else e.rng.randint(60, 300)
        if (pl, en) == (1, 0):
            txt = "".join(e.rng.choice(MACROMAN + "abc 123") for _ in range(ln))
            codes = list(txt.encode("mac_roman"))
        else:
            txt = "".join(
                e.rng.choice("abc ÄÖ€αβЖשع日本語\ufffd\n\r") for _ in range(ln)
            )
            codes = [ord(c) for c in txt]
        b += b"".join(map(e.v, rec)) + e.v(len(codes)) + b"".join(map(e.v, codes))
        s.append((*rec, txt))
    return s, b


def g_cmaps(e):
    s = []
    n = e.cnt(4)
    b = e.v(n)
    for _ in range(n):
        c = {k: e.n() for k in ("language_id", "platform_id", "encoding_id", "format", "option")}
        b += b"".join(e.v(x) for x in c.values())
        c["page_name"] = e.text(20)
        b += e.pstr(c["page_name"])
        s.append(c)
    return s, b


def g_pclt(e):
    r = e.rng
    s = {"font_number": r.choice((0, 5, 2**32 - 1, 2**31, r.randrange(2**32)))}
    for k in ("pitch", "x_height", "style", "type_family", "cap_height", "symbol_set"):
        s[k] = e.n()
    b = b"".join(e.v(x) for x in s.values())
    s["typeface"] = "".join(r.choice("abc DEF12") for _ in range(16))
    s["character_complement"] = [r.randrange(256) for _ in range(8)]
    s["file_name"] = "".join(r.choice("abcDEF12") for _ in range(6))
    s["stroke_weight"] = r.choice((0, 7, -7, -128, 127))
    s["width_type"] = r.choice((0, 2, -5, -128, 127))
    s["serif_style"] = r.choice((0, 12, 255, 64, 128))
    b += s["typeface"].encode() + bytes(s["character_complement"]) + s["file_name"].encode()
    b += struct.pack("bbB", s["stroke_weight"], s["width_type"], s["serif_style"])
    return s, b


def _flags(e, n):
    s = {}
    for _ in range(e.cnt(5)):
        s[e.name()] = tuple(e.n(-5000, 5000) for _ in range(n))
    b = e.v(len(s))
    for k, t in s.items():
        b += e.pstr(k) + b"".join(map(e.v, t))
    return s, b


def g_metricsflags(e):
    return _flags(e, 3)


def g_kernflags(e):
    return _flags(e, 2)


def g_bintable(e):
    tag = "".join(e.rng.choice("abCD ") for _ in range(4))
    d = bytes(e.rng.randrange(256) for _ in range(e.rng.choice((0, 1, 7, 400))))
    return {"tag": tag, "data": d.hex()}, tag.encode() + d


def g_features(e):
    r = e.rng
    lines = []
    for _ in range(e.more(r.randint(0, 8))):
        lines += r.choice(([""], ["", ""], [], [], r.choice((["  "], ["", "\t"], [" ", ""]))))
        lines.append(
            r.choice(
                ("feature kern {", "} kern;", "  sub f i by f_i;", "# comment", "lookup x {",
                 "\tpos A V -20;", "@cls = [a b c];", "  sub a by b; \t", "# \x0b\x0c", " # x  ")
            )
        )  # fmt: skip
    # never more than two blank lines in a row
    out, c = [], 0
    for ln in lines:
        c = 0 if ln.strip() else c + 1
        if c <= 2:
            out.append(ln)
    lines = out
    if e.platform == "windows" and lines and r.random() < 0.5:
        lines[-1] += " # Größe"
    canon = "\n".join(lines + [""])
    if e.canon:
        return lines + [""], e.enc(canon)
    raw = canon
    k = r.random()
    if k < 0.4:
        raw = raw.replace("\n", "\r\n")
    if k < 0.6:
        raw += raw[-2:].count("\r") * "\r\n" or "\n" * r.randint(0, 3)
    if not lines:
        raw = r.choice(("", "", "\n", "\n\n", "\r\n\r\n", "\n\n\n\n"))
    return lines + [""], e.enc(raw)


def g_aniso(e):
    s = [[(e.n(), e.n()) for _ in range(e.cnt(4))] for _ in range(e.cnt(4))]
    b = b""
    for ax in s:
        b += e.v(len(ax)) + b"".join(e.v(x) + e.v(y) for x, y in ax)
    return s, b


def g_axismapcount(e):
    s = [e.rng.choice((0, 1, 3, 10, 2**32 - 1)) for _ in range(4)]
    return s, b"".join(map(u32, s))


def g_axismap(e):
    s = [(rdouble(e.rng), rdouble(e.rng)) for _ in range(10 * e.more(e.rng.randint(1, 4)))]
    return s, b"".join(f64(a) + f64(b) for a, b in s)


def g_masterloc(e):
    s = (e.rng.randrange(16), tuple(rdouble(e.rng) for _ in range(4)))
    return s, u32(s[0]) + b"".join(map(f64, s[1]))


def g_primaries(e):
    s, b = [], b""
    n = e.cnt(5)
    b += e.v(n)
    for _ in range(n):
        raws = [e.rng.choice((0, 10000, e.n(0, 10_000_000), e.rng.randint(-30000, 2_000_000)))
                for _ in range(4)]
        nm = e.text(10)
        b += e.pstr(nm) + b"".join(map(e.v, raws))
        s.append({"name": nm, "values": tuple(x / 10000 for x in raws)})
    return s, b


def g_psinfo(e):
    r = e.rng

    def n32():
        return r.choice((0, -1, 700, -250, 2**31 - 1, -(2**31), r.randint(-3000, 3000)))

    def un32():
        return r.choice((0, 1, 80, 2**32 - 1, 2**31, r.randint(0, 3000)))

    s = {"font_matrix": tuple(rdouble(r) for _ in range(6)), "force_bold": n32()}
    b = b"".join(map(f64, s["font_matrix"])) + i32(s["force_bold"])
    for k, n in (("blue_values", 14), ("other_blues", 10), ("family_blues", 14),
                 ("family_other_blues", 10)):
        s[k] = [n32() for _ in range(n)]
        b += b"".join(map(i32, s[k]))
    s["blue_scale"] = rdouble(r)
    b += f64(s["blue_scale"])
    for k in ("blue_shift", "blue_fuzz", "std_hw", "std_vw"):
        s[k] = un32()
        b += u32(s[k])
    for k in ("stem_snap_h", "stem_snap_v"):
        s[k] = [un32() for _ in range(12)]
        b += b"".join(map(u32, s[k]))
    bb = {k: r.choice((0, -1, 32767, -32768, r.randint(-2000, 2000)))
          for k in ("xMin", "yMin", "xMax", "yMax")}
    s["bounding_box"] = bb
    b += b"".join(map(i16, bb.values()))
    for k in ("adv_width_min", "adv_width_max", "adv_width_avg", "ascender", "descender",
              "x_height", "cap_height"):
        s[k] = n32()
        b += i32(s[k])
    return s, b


def angle_of(slope):
    return math.degrees(math.atan2(slope, 10000))


def _guides(e, m):
    s, b = {"h": [], "v": []}, b""
    for d in "hv":
        n = e.cnt(4)
        b += e.v(n)
        for _ in range(n):
            g = []
            for _ in range(m):
                pos, slope = e.n(), e.rng.choice((0, 0, e.n(-30000, 30000), e.n(-10**6, 10**6)))
                if abs(slope) > 10**8:
                    slope = 12345
                g.append({"pos": pos, "angle": angle_of(slope)})
                b += e.v(pos) + e.v(slope)
            s[d].append(g)
    return s, b


def g_guides(e):
    return _guides(e, e.m)


def g_guideprops(e):
    s, b = {"h": [], "v": []}, b""
    for d in "hv":
        idx = 0
        for _ in range(e.cnt(4)):
            idx += e.rng.randint(1, 3)
            g = {"index": idx}
            b += e.v(idx)
            if e.rng.random() < 0.6:
                rgb = [e.rng.choice((0, 255, e.rng.randrange(256))) for _ in range(3)]
                g["color"] = "#%02x%02x%02x" % tuple(rgb)
                n = rgb[0] | rgb[1] << 8 | rgb[2] << 16
                b += val(n, long=True) if e.canon else e.v(n)
            else:
                b += e.v(-1)
            nm = e.text(10)
            if nm:
                g["name"] = nm
            b += e.pstr(nm)
            s[d].append(g)
        b += e.v(0)
    return s, b


CMD = {"move": 0, "line": 1, "curve": 3, "qcurve": 4}


def gen_nodes(e, m, hi=12):
    nodes = []
    types = e.rng.choice((("line",), ("line", "curve"), ("line", "qcurve"),
                          ("line", "curve", "qcurve")))
    for i in range(e.more(e.rng.choice((0, 1, 3, e.rng.randint(0, hi))))):
        t = "move" if i == 0 or e.rng.random() < 0.2 else e.rng.choice(types)
        k = 3 if t == "curve" else 1
        # relative moves must stay within int32, so coordinates are kept small
        nodes.append({
            "type": t, "flags": e.rng.choice((0, 0, 1, 2, 3, 8, 9, 15)),
            "points": [[(e.rng.randint(-3000, 3000) if e.rng.random() < .8 else
                         e.rng.randint(-10**6, 10**6), e.rng.randint(-3000, 3000))
                        if e.rng.random() < .95 else (0, 0)
                        for _ in range(k)] for _ in range(m)],
        })  # fmt: skip
    return nodes


def enc_outline(e, m, nodes):
    ref = [[0, 0] for _ in range(m)]
    b, count = b"", 0
    for nd in nodes:
        b += bytes([nd["flags"] * 16 + CMD[nd["type"]]])
        count += 1
        for j in range(len(nd["points"][0])):
            for i in range(m):
                x, y = nd["points"][i][j]
                b += e.v(x - ref[i][0]) + e.v(y - ref[i][1])
                ref[i] = [x, y]
                count += 2
    return e.v(m) + e.v(2 * count) + e.v(len(nodes)) + b


TT = {
    "AlignTop": (1, "pt zone"), "AlignBottom": (2, "pt zone"),
    "SingleLinkH": (3, "pt1 pt2 stem align"), "SingleLinkV": (4, "pt1 pt2 stem align"),
    "DoubleLinkH": (5, "pt1 pt2 stem"), "DoubleLinkV": (6, "pt1 pt2 stem"),
    "AlignH": (7, "pt align"), "AlignV": (8, "pt align"),
    "InterpolateH": (13, "pti pt1 pt2 align"), "InterpolateV": (14, "pti pt1 pt2 align"),
    "MDeltaH": (20, "pt shift ppm1 ppm2"), "MDeltaV": (21, "pt shift ppm1 ppm2"),
    "FDeltaH": (22, "pt shift ppm1 ppm2"), "FDeltaV": (23, "pt shift ppm1 ppm2"),
}  # fmt: skip


def gen_imported(e):
    r = e.rng
    im = {"width": e.n(0, 3000)}
    b = b"\x29" + e.v(im["width"])
    for k in ("lsb", "unknown1", "unknown2", "unknown3"):
        im[k] = e.n()
        b += e.v(im[k])
    im["bbox"] = [e.n() for _ in range(4)]
    b += b"".join(map(e.v, im["bbox"]))
    if r.random() < 0.15:
        im["num_contours"], im["endpoints"], n = -1, [], 0
    else:
        n = e.more(r.randint(0, 3))
        im["endpoints"] = sorted(r.sample(range(40 + 2 * n), n))
        im["num_contours"] = len(im["endpoints"])
        n = im["endpoints"][-1] + 1 if im["endpoints"] else 0
    b += b"\x2a" + e.v(im["num_contours"]) + b"".join(map(e.v, im["endpoints"])) + e.v(n)
    nodes, x, y = [], 0, 0
    for _ in range(n):
        dx, dy, fl = r.randint(-1500, 1500), r.randint(-1500, 1500), r.randrange(256)
        x += dx
        y += dy
        nodes.append({"flags": fl, "on": fl & 1, "point": (x, y)})
        b += e.v(dx) + e.v(dy) + bytes([fl])
    if nodes:
        im["nodes"] = nodes
    # a TrueType program of plain opcodes, with its assembly
    code, asm = b"", []
    for _ in range(e.more(r.choice((0, 0, 3, 10)))):
        op, txt = r.choice((("0c", "MINDEX[  ]"), ("", ""), ("5d", "DELTAP1[  ]"),
                            ("3f", "MIAP[1]"), ("3e", "MIAP[0]"), ("30", "IUP[0]"),
                            ("31", "IUP[1]"), ("2d", "ENDF[  ]")))
        if op in ("0c", ""):
            continue
        code += bytes.fromhex(op)
        asm.append(op)
    b += b"\x2b" + e.v(len(code)) + code
    im["instructions"] = ("code", code)
    im["hdmx"] = [r.randrange(256) for _ in range(e.more(r.choice((0, 0, 2, 5))))]
    b += b"\x2c" + e.v(len(im["hdmx"])) + bytes(im["hdmx"])
    return im, b + b"\x28"


def g_glyph(e, name=None, nodes=None):
    """-> the decompiled glyph, its bytes. Imported instructions are returned as
    ("code", bytes): their assembly is TrueType's, not the VFB's."""
    r, m = e.rng, e.gm
    s, first, rest = {}, b"", []
    s["name"] = e.name(r.random() < 0.95) if name is None else name
    first += b"\x01" + e.pstr(s["name"])
    s["num_masters"] = m
    s["nodes"] = gen_nodes(e, m) if nodes is None else nodes
    first += b"\x08" + enc_outline(e, m, s["nodes"])
    if r.random() < 0.95:
        s["metrics"] = [(e.n(), e.n()) for _ in range(m)]
        rest.append(b"\x02" + b"".join(e.v(x) + e.v(y) for x, y in s["metrics"]))
    if r.random() < 0.5:
        h, b = {"h": [], "v": []}, b"\x03"
        for d in "hv":
            n = e.cnt(4)
            b += e.v(n)
            for _ in range(n):
                mm = [{"pos": e.n(), "width": e.n()} for _ in range(m)]
                h[d].append(mm)
                b += b"".join(e.v(x["pos"]) + e.v(x["width"]) for x in mm)
        masks = [(r.choice("hvr"), e.n()) for _ in range(e.cnt(6))]
        b += e.v(len(masks))
        b += b"".join(bytes([{"h": 1, "v": 2, "r": 255}[k]]) + e.v(x) for k, x in masks)
        if masks:
            h["hintmasks"] = masks
        if h["h"] or h["v"] or masks:
            s["hints"] = h
            rest.append(b)
        elif not e.canon:
            rest.append(b)  # an empty hints block is no content
    if r.random() < 0.4:
        s["guides"], b = _guides(e, m)
        rest.append(b"\x04" + b)
    if r.random() < 0.3:
        s["components"] = []
        n = e.more(r.randint(1, 3))
        b = b"\x05" + e.v(n)
        for _ in range(n):
            c = {"gid": e.n(0), "offsetX": [], "offsetY": [], "scaleX": [], "scaleY": []}
            b += e.v(c["gid"])
            for _ in range(m):
                x, y, sx, sy = e.n(), e.n(), rdouble(r), rdouble(r)
                b += e.v(x) + e.v(y) + f64(sx) + f64(sy)
                for k, q in zip(("offsetX", "offsetY", "scaleX", "scaleY"), (x, y, sx, sy)):
                    c[k].append(q)
            s["components"].append(c)
        rest.append(b)
    if r.random() < 0.3:
        s["kerning"] = {}
        for _ in range(e.more(r.randint(1, 4))):
            s["kerning"][e.n(0)] = [e.n() for _ in range(m)]
        b = b"\x06" + e.v(len(s["kerning"]))
        for k, xs in s["kerning"].items():
            b += e.v(k) + b"".join(map(e.v, xs))
        rest.append(b)
    if r.random() < 0.15:
        s["imported"], b = gen_imported(e)
        rest.append(b"\x09" + b)
    if r.random() < 0.4:
        cmds, b = [], b""
        for _ in range(e.more(r.randint(1, 5))):
            nm = r.choice(list(TT))
            op, ps = TT[nm]
            pr = {p: e.n() for p in ps.split()}
            cmds.append({"cmd": nm, "params": pr})
            b += bytes([op]) + b"".join(map(e.v, pr.values()))
        b = e.v(len(cmds)) + b + e.v(0) * 3
        s["tth"] = cmds
        rest.append(b"\x0a" + e.v(len(b)) + b)
    elif not e.canon and r.random() < 0.3:
        rest.append(b"\x0a" + e.v(4) + e.v(0) * 4)  # no commands
    if not e.canon:
        r.shuffle(rest)
    return s, b"\x01\x09\x07\x01" + first + b"".join(rest) + b"\x0f"


def g_links(e):
    s, b = {}, b""
    for d in "yx":
        s[d] = [(e.n(), e.n()) for _ in range(e.cnt())]
        b += e.v(len(s[d])) + b"".join(e.v(x) + e.v(y) for x, y in s[d])
    return s, b


def gen_raster(r, w, h):
    """rows of bytes, every row padded to 16 bit"""
    bpr = (w + 15) // 16 * 2
    style = r.randrange(4)
    rows = []
    for _ in range(h if w else 0):
        if style == 0:
            row = [r.choice((0, 255))] * bpr
        elif style == 1:
            row = [r.randrange(256) for _ in range(bpr)]
        elif style == 2:
            row = [r.choice((0, 0, 0, 255, 7)) for _ in range(bpr)]
        else:
            row = [0] * bpr
        rows.append(row)
    return rows


def rle(r, flat):
    """Some run-length encoding of the bytes (any mix of runs and literals)."""
    b, i = b"", 0
    while i < len(flat):
        j = i
        while j < len(flat) and flat[j] == flat[i] and j - i < 128:
            j += 1
        if j - i >= 2 and r.random() < 0.85:
            n = r.choice((j - i, j - i, r.randint(2, j - i)))
            b += struct.pack("bB", -(n - 1), flat[i])
            i += n
        else:
            n = min(len(flat) - i, r.choice((1, 2, 5, 128, r.randint(1, 128))))
            b += struct.pack("b", n - 1) + bytes(flat[i : i + n])
            i += n
    return b


def unrle(b):
    out, i = [], 0
    while i < len(b):
        (c,) = struct.unpack("b", b[i : i + 1])
        i += 1
        if c >= 0:
            if i + c + 1 > len(b):
                raise ValueError("literal run past the end")
            out += b[i : i + c + 1]
            i += c + 1
        else:
            out += [b[i]] * (1 - c)
            i += 1
    return out


def preview(rows, w):
    out = []
    for row in rows:
        bitsrow = "".join(f"{x:08b}" for x in row)[:w]
        out.append("".join("█▉" if c == "1" else " ▕" for c in bitsrow))
    return out


def enc_raster(e, rows):
    flat = [x for row in rows for x in row]
    if e.platform == "windows":
        flat = [255 - x for x in flat]
    b = rle(e.rng, flat)
    return e.v(len(b)) + b


def _dims(e):
    r = e.rng
    w = r.choice((1, 8, 15, 16, 17, 33, r.randint(1, 80), r.choice((700, 1040))))
    h = r.choice((1, 2, 7, r.randint(1, 40), e.more(5)))
    if r.random() < 0.06:
        # empty, like the bitmap of a space
        w, h = r.choice(((0, 0), (0, h), (w, 0)))
    return w, h


def g_image(e):
    w, h = _dims(e)
    rows = gen_raster(e.rng, w, h)
    s = {"origin": (e.n(), e.n()), "size_units": (e.n(0), e.n(0)), "size_pixels": (w, h),
         "bitmap": {"data": rows, "preview": preview(rows, w)}}
    b = b"".join(e.v(x) for k in ("origin", "size_units", "size_pixels") for x in s[k])
    return s, b + enc_raster(e, rows)


def g_bitmaps(e):
    s, n = [], e.cnt(3)
    b = e.v(n)
    for _ in range(n):
        w, h = _dims(e)
        rows = gen_raster(e.rng, w, h)
        d = {"ppm": e.n(0, 200), "origin": (e.n(), e.n()), "adv": (e.n(0), e.n(0)),
             "size_pixels": (w, h), "bitmap": {"data": rows, "preview": preview(rows, w)}}
        b += e.v(d["ppm"])
        b += b"".join(e.v(x) for k in ("origin", "adv", "size_pixels") for x in d[k])
        b += enc_raster(e, rows)
        s.append(d)
    return s, b


def g_sketch(e):
    s = [(e.n(), e.n(), e.n()) for _ in range(e.cnt(6))]
    return s, e.v(len(s)) + b"".join(e.v(x) for t in s for x in t)


def g_mask(e):
    ws = [e.rng.choice((0, 100_000_000, 50_000_000, e.rng.randrange(10**8))) for _ in range(e.gm)]
    nodes = gen_nodes(e, e.gm)
    s = {"weight_vector": [w / 1e8 for w in ws], "num_masters": e.gm, "nodes": nodes}
    return s, e.v(len(ws)) + b"".join(map(e.v, ws)) + enc_outline(e, e.gm, nodes)


def g_globalmask(e):
    nodes = gen_nodes(e, e.gm)
    return {"num_masters": e.gm, "nodes": nodes}, enc_outline(e, e.gm, nodes)


def g_maskmetrics(e):
    (x, a), (y, b) = g_int16(e), g_int16(e)
    return (x, y), a + b


def g_maskmetricsmm(e):
    s = [(e.n(), e.n()) for _ in range(e.m - 1)]
    return s, b"".join(e.v(x) for t in s for x in t)


def g_origin(e):
    (x, a), (y, b) = g_int16(e), g_int16(e)
    return {"x": x, "y": y}, a + b


def g_unicodes(e):
    s = [g_uint16(e)[0] for _ in range(e.cnt())]
    return s, b"".join(map(u16, s))


def g_unicodes32(e):
    s = [e.rng.choice((0x10000, 0x1F600, 0x10FFFF, 0x2F800, 0x2F800, 0x1F600, 0x200041, 2**32 - 1)) for _ in range(e.cnt())]
    return s, b"".join(map(u32, s))


def g_gdef(e):
    names = ("unassigned", "base", "ligature", "mark", "component")
    c = e.rng.randrange(5)
    s = {}
    if c:
        s["glyph_class"] = names[c]
    b = e.v(c)
    an = []
    n = e.cnt()
    b += e.v(n)
    for _ in range(n):
        nm = e.name(False)
        a = {"x": e.n(), "y": e.n()}
        # the second pair of coordinates is unused
        u, w = (-1, -1) if e.canon else (e.n(), e.n())
        b += e.pstr(nm) + e.v(a["x"]) + e.v(u) + e.v(a["y"]) + e.v(w)
        if nm:
            a["name"] = nm
        an.append(a)
    if an:
        s["anchors"] = an
    ca = [(e.n(), e.n()) for _ in range(e.cnt())]
    b += e.v(len(ca)) + b"".join(e.v(x) for t in ca for x in t)
    if ca:
        s["carets"] = ca
    oc = [e.n() for _ in range(e.cnt())]
    b += e.v(len(oc)) + b"".join(map(e.v, oc))
    if oc:
        s["ot_classes"] = oc
    return s, b


def g_anchorprops(e):
    s = [{"hue": e.n(), "data": e.n()} for _ in range(e.cnt())]
    return s, e.v(len(s)) + b"".join(e.v(x["hue"]) + e.v(x["data"]) for x in s)


def g_anchors(e):
    s = []
    n = e.cnt()
    m = e.gm if n else e.m
    b = e.v(n) + e.v(m)
    for _ in range(n):
        a = {"x": [], "y": []}
        for _ in range(m):
            x, y = e.n(), e.n()
            a["x"].append(x)
            a["y"].append(y)
            b += e.v(x) + e.v(y)
        s.append(a)
    return s, b


FONTOPT = dict(enumerate((
    "fit_ascender fit_descender auto_metrics_left auto_metrics_right auto_metrics_close "
    "auto_hinting_min_h_len auto_hinting_min_v_len auto_hinting_min_h_width "
    "auto_hinting_min_v_width auto_hinting_max_h_width auto_hinting_max_v_width "
    "auto_hinting_h_ratio auto_hinting_v_ratio duplicate_place_x paste_place_x "
    "opentype_name_records codepage_for_cmap_1_0 dont_ignore_unicode_indexes "
    "head_bbox_savings autohinting_options export_hinted_truetype_font "
    "autohint_unhinted_glyphs keep_existing_truetype_instructions "
    "export_visual_truetype_hints apply_bbox_savings auto_win_asc_desc add_characters "
    "export_embedded_bitmaps copy_hdmx_data_from_base_to_composite_glyph "
    "dont_automatically_reorder_glyphs export_ot export_volt write_kern_feature "
    "t1_terminal t1_pfm t1_afm t1_autohint t1_unicode optimize_align optimize_reduce "
    "t1_encoding ot_write_gdef t1_use_os2 subrize t1_sort export_kern_table t1_fs_type "
    "expand_kern_flags expand_kern_codepage expand_kern_count decompose"
).split(), 1))  # fmt: skip
FONTOPT[114] = "duplicate_place_y"
FONTOPT[115] = "paste_place_y"
AUTOH = (
    (0x100, "generate_triple_hints"), (0x200, "generate_delta_instructions"),
    (0x400, "direct_links_to_center_of_the_glyph_where_possible"),
    (0x800, "interpolate_positions_of_cusp_points"),
    (0x1000, "interpolate_positions_of_double_links"), (0x2000, "add_link_to_rsb"),
)  # fmt: skip
EXPK = (
    (1, "limit_action"), (2, "limit_codepage"), (4, "limit_cmap_10"),
    (8, "limit_font_window"), (16, "limit_count"), (32, "limit_keep"),
    (0x1000, "apply_to_assistance"),
)  # fmt: skip


def g_fontoptions(e):
    r = e.rng
    keys = [k for k in FONTOPT if r.random() < 0.8]
    r.shuffle(keys)
    if r.random() < 0.15:
        keys.append(r.choice((52, 60, 99, 113, 200)))  # options without a name
    s, b = {}, b""
    for k in keys:
        nm = FONTOPT.get(k, str(k))
        if k in (12, 13):
            n = r.choice((20000, 10000, r.randint(-100000, 10**6)))
            s[nm] = n / 10000
        elif k == 20:
            p, on = r.randrange(8), [f for f in AUTOH if r.random() < 0.5]
            n = p + sum(f for f, _ in on)
            s[nm] = {"single_link_attachment_precision": p}
            s[nm].update({q: int((f, q) in on) for f, q in AUTOH})
        elif k == 48:
            on = [f for f in EXPK if r.random() < 0.5]
            n = sum(f for f, _ in on)
            s[nm] = {q: int((f, q) in on) for f, q in EXPK}
        else:
            n = e.n()
            s[nm] = n
        b += bytes([k]) + e.v(n)
    return s, b + b"\x64"


def g_exportoptions(e):
    bs = bits(e, 16 if e.rng.random() < 0.3 else 3)
    nm = {0: "use_custom_opentype_export_options", 1: "use_default_opentype_export_options",
          2: "use_custom_cmap_encoding"}
    return [nm.get(b, b) for b in bs], u16(sum(1 << b for b in bs))


def g_mappingmode(e):
    mode = e.rng.choice((0, 1, 3, 3, 2, 17, -1, -2, 5000))
    nm = {0: "names_or_index", 1: "unicode_ranges", 3: "codepages"}.get(mode, str(mode))
    s = {"mapping_mode": nm, "m2": e.n(), "m3": e.n(), "mapping_id": e.n()}
    parts = [b"\x01" + e.v(mode), b"\x02" + e.v(s["m2"]), b"\x03" + e.v(s["m3"]),
             b"\x04" + e.v(s["mapping_id"])]
    if not e.canon:
        e.rng.shuffle(parts)
    return s, b"".join(parts) + b"\0"


def g_mmkern(e):
    r = e.rng
    s = {"l": r.choice((0, 5, 70000, 2**32 - 1)), "r": r.choice((0, 5, 70000, 2**32 - 1)),
         "values": [r.randint(-32768, 32767) for _ in range(e.m)]}
    return s, u32(s["l"]) + u32(s["r"]) + b"".join(map(i16, s["values"]))


GEN = {k[2:]: f for k, f in list(globals().items()) if k.startswith("g_")}
assert set(KIND.values()) == set(GEN), set(KIND.values()) ^ set(GEN)

# kinds whose bytes are not determined by the content (any run-length encoding)
FREE_BYTES = {"image", "bitmaps"}


def entry(e, eid):
    """A random entry -> (structure, bytes)"""
    return GEN[KIND[eid]](e)


def prologue(e, with_stems=False):
    """Entries that tell a reader the platform, number of masters and stems."""
    out = []
    p = Env(e.rng, e.m, e.platform)
    out.append((FLVERSION, g_flversion(p)[1]))
    out.append((MASTERCOUNT, u16(e.m)))
    if with_stems:
        out.append((TTSTEMS, g_ttstems(p, (e.nv, e.nh))[1]))
    return out
