"""Feature code."""
import re

from vm import ufox

BUDGET = (12, 300)
GENS = [dict(focus=("features", "classes"), nglyphs=5), dict(focus=("features",), nglyphs=1),
        dict(focus=("features", "classes", "mm", "unflagged"), nglyphs=8)]
W = ["A", "B", "V", "@_A0", "@_O1", "@CAPS", "@_x.y", "[A B]", "<0 0 -5 0>", "-20", "0", "10",
     "by", "pos", "sub", "enum", "lookup", "feature", "ignore", "A'", "@_A0'", "12", "-3"]


def words(s):
    return s.split()


def tokens(code):
    """without spaces around punctuation"""
    return re.findall(r"\[[^\]]*\]|<[^>]*>|[^\s;]+|;", code)


def simple_pair(line):
    """(prefix, enum, left, right, rest, comment) of a line with one pair positioning statement"""
    code, sep, comment = line.partition("#")
    m = re.match(r"^(\s*)(enum\s+)?pos\s+(\S+)\s+(\S+)\s+(\S.*)$", code)
    if not m:
        return None
    ind, enum, left, right, rest = m.groups()
    return ind, bool(enum), left, right, rest, sep + comment


def gen_line(r):
    k = r.random()
    sp = lambda: r.choice((" ", " ", " ", " ", "  ", "   ", "\t", " \t"))  # noqa: E731
    ind = r.choice(("", "  ", "    ", "\t", " \t"))
    com = r.choice(("", "", "", " # comment", "#", " # spaces  ", "# tab\t", " # pos @_A0 @_O1 5;", "# @_A0",
                    " ## a # b", "# x #", "##", " # a; # @_A0 @_O1 #"))
    cls = ("A", "V", "@_A0", "@_O1", "@_round2", "@CAPS", "@kern", "@_", "a_b", "@_x.alt")
    if k < 0.45:
        v = r.choice(("-20", "0", "15", "<0 0 -5 0>", "<-4>"))
        return f"{ind}{r.choice(('', '', 'enum' + sp()))}pos{sp()}{r.choice(cls)}{sp()}{r.choice(cls)}" \
            f"{sp()}{v}{r.choice(('', '', ' '))};{com}"
    if k < 0.55:
        return f"{ind}# pos {r.choice(cls)} {r.choice(cls)} -10;"
    if k < 0.7:
        return ind + r.choice(("sub @_A0 by @_O1;", "sub a_b' by A;", "ignore sub @_A0 B';",
                               "position_x;", "@NEW = [@_A0 @_O1];", "feature kern {",
                               "} kern;", "lookup pos_A {", "script latn;", "",
                               "lookupflag RightToLeft;", "markClass acute <anchor 0 0> @_top;",
                               "name 1 \"pos @_A0 @_O1 3\";", "subtable;", "parameters 10 0;")) + com
    return ind + " ".join(r.choice(W) for _ in range(r.randint(0, 5))) + r.choice(("", ";")) + com


def rename(tok, side):
    return f"@public.kern{side}.{tok[1:]}" if tok.startswith("@_") else tok


def check_line(ctx, src, out, at, raw):
    p = simple_pair(src)
    if p is None:
        ctx.expect(out == src, f"{at}: {src!r} became {out!r}", file=raw)
        ctx.ev("other lines")
        return
    ind, enum, left, right, rest, comment = p
    if not (left.startswith("@_") or right.startswith("@_")):
        ctx.expect(words(out) == words(src), f"{at}: {src!r} became {out!r}", file=raw)
        ctx.ev("pairs without kerning classes")
        return
    q = simple_pair(out)
    if not ctx.expect(q is not None, f"{at}: {src!r} became {out!r}", file=raw):
        return
    want = (ind, enum, rename(left, 1), rename(right, 2), words(rest), comment)
    got = (q[0], q[1], q[2], q[3], words(q[4]), q[5])
    ctx.expect(got == want, f"{at}: {src!r} became {out!r}, expected {want}", file=raw)
    ctx.ev("renamed pairs")
    if comment:
        ctx.ev("renamed pairs with comments")


def run(ctx):
    ctx.rule = (
        "feature code of real and generated fonts and generated lines (pairs with and without "
        "kerning classes, comments, other statements): each line is kept, references to kerning "
        "classes in pair positioning become the names of the UFO groups, the same in all masters"
    )
    from vfbLib.ufo.builder import VfbToUfoBuilder

    def judge(label, lines, ufos, raw):
        for mi, u in enumerate(ufos):
            at = f"{label}: master {mi}"
            text = u.features.text
            if not any(s.strip() for s in lines):
                continue
            out = text.split("\n")
            lines = list(lines)
            while lines and not lines[-1].strip():
                lines.pop()
            while out and not out[-1].strip():
                out.pop()
            # after the classes and empty lines
            head, out = out[:-len(lines)], out[-len(lines):]
            ctx.expect(all(re.fullmatch(r"@\S+ = \[.*\];|", h) for h in head),
                       f"{at}: unexpected code {head}", file=raw)
            if not ctx.expect(len(out) == len(lines),
                              f"{at}: {len(out)} lines of code, expected {len(lines)}", file=raw,
                              code=text):
                return
            for k, (a, b) in enumerate(zip(lines, out)):
                check_line(ctx, a, b, f"{at}: line {k}", raw)
            ctx.case((label, ctx.seed, mi), bool(lines))

    n = 0
    for label, src, v, raw in ufox.sources(ctx, 30, GENS, frac=0.5):
        r = ctx.sub("opt", label)
        move = r.random() < 0.5
        ok, res = ctx.guard(f"{label}: conversion", ufox.convert, v, move_groups=move,
                            minimal=r.random() < 0.3,
                            **ufox.spare(r, "pshints", "base64"), detail={"file": raw})
        if not ok:
            continue
        _, ufos, _ = res
        # the reader drops the third of three and more empty lines
        lines = next((e.data for e in v.entries if e.id == 1276), [])
        if lines and not any(lines[:1]):
            continue
        judge(label, lines, ufos, raw)
        # other code, in the same font
        for j in range(3):
            code = [gen_line(r) for _ in range(r.randint(1, 12))]
            code[0] = code[0] or "# start"
            b = VfbToUfoBuilder(v)
            ok, _ = ctx.guard(f"{label}: feature code", b.set_feature_code, list(code),
                              detail={"code": code})
            if not ok:
                continue
            got = b.features_code.split("\n")
            if ctx.expect(len(got) == len(code), f"{len(got)} lines became {len(code)}", code=code):
                for a, c in zip(code, got):
                    check_line(ctx, a, c, f"{label}: generated code", None)
            ctx.case((label, ctx.seed, j))
    while ctx.more(n, 30):
        r = ctx.sub("code", n)
        n += 1
        g, entries, raw = __import__("vm.fontgen", fromlist=["gen"]).gen(
            r, focus=(), without=("classes",), nglyphs=1)
        code = [gen_line(r) for _ in range(r.randint(1, 30))]
        code[0] = code[0] or "# start"
        while not code[-1]:
            code.pop()
        from vm import fontgen, lib

        out, done = [], False
        for e in entries:
            if e[0] == 1276:
                continue
            if e[0] == 513 and not done:
                out.append((1276, code))
                done = True
            out.append(e)
        raw = fontgen.compile_entries(out, g.m, g.platform)
        v = lib.load(raw)
        v.decompile()
        ok, res = ctx.guard("conversion", ufox.convert, v,
                            **ufox.spare(r, "pshints", "base64"), detail={"file": raw})
        if not ok:
            continue
        # the reader drops the third of three and more empty lines
        code = next(e.data for e in v.entries if e.id == 1276)
        judge(f"code{n}", code, res[1], raw)
        ctx.ev("fonts with generated code")
        if len(ctx.violations) > 10:
            return
    ctx.require(**{"renamed pairs": 200, "renamed pairs with comments": 50, "other lines": 200,
                   "pairs without kerning classes": 50})
