"""vfbdiff shows every difference between two files, and none for the same content."""
import html
import difflib
import json
import re
import shutil
from pathlib import Path

from vm import cli, core, fontgen, lib, ref, ufox

BUDGET = (14, 300)
NUM = re.compile(r"-?\d+\.?\d*(?:[eE][+-]?\d+)?")
HUNK = re.compile(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@")


def num(m):
    s = m.group()
    return s if s.lstrip("-").isdigit() else repr(float(s))


def norm(line):
    """numbers in one notation, outside of strings"""
    parts = re.split(r'("(?:[^"\\]|\\.)*")', line)
    return "".join(x if i % 2 else NUM.sub(num, x) for i, x in enumerate(parts))


def lines_of(v):
    """sorted and indented JSON of the content, made by another library"""
    d = cli.jsonish(v.as_dict())
    text = json.dumps(d, indent=2, sort_keys=True, ensure_ascii=False)
    out = []
    for s in text.split("\n"):
        out += s.splitlines() or [""]
    return [norm(s) for s in out]


def decoded(raw):
    v = lib.load(raw)
    v.decompile()
    return v


def differ(raw_a, raw_b):
    """contents, independent of the lines: [(id, comparable)]"""
    out = []
    for raw in (raw_a, raw_b):
        v = decoded(raw)
        v.header.decompile()
        # (as text: 0.0 and -0.0 are different)
        out.append([json.dumps(x, sort_keys=True) for x in (
            [cli.jsonish(v.header.data)] +
            [(str(e.key), cli.jsonish(core.norm(e.data))) for e in v.entries])])
    return out[0] != out[1]


def check_unified(ctx, at, text, a, b, raw):
    """the hunks turn a into b"""
    # (the lines of headers end with a line end of their own)
    L = [s for s in text.split("\n") if s != ""]
    if not ctx.expect(L[0].startswith("--- ") and L[1].startswith("+++ "), f"{at}: {L[:2]}", file=raw):
        return
    L = L[2:]
    i, ia, ib = 0, 0, 0
    n = 0
    while i < len(L):
        m = HUNK.match(L[i])
        if not ctx.expect(m, f"{at}: {L[i]!r} isn't the start of a hunk", file=raw):
            return
        sa, na, sb, nb = (int(x) if x else 1 for x in m.groups())
        sa, sb = sa - (na > 0), sb - (nb > 0)
        i += 1
        if not ctx.expect(a[ia:sa] == b[ib:sb], f"{at}: lines {ia}-{sa} differ, but aren't shown",
                          file=raw):
            return
        ia, ib = sa, sb
        while i < len(L) and (ia < sa + na or ib < sb + nb):
            k, s = L[i][0], norm(L[i][1:])
            i += 1
            if k in " -":
                if not ctx.expect(ia < len(a) and a[ia] == s, f"{at}: {k}{s!r} isn't line {ia} of the "
                                  "first file", file=raw):
                    return
                ia += 1
            if k in " +":
                if not ctx.expect(ib < len(b) and b[ib] == s, f"{at}: {k}{s!r} isn't line {ib} of the "
                                  "second file", file=raw):
                    return
                ib += 1
            n += k != " "
        ctx.expect(ia == sa + na and ib == sb + nb, f"{at}: hunk ends early", file=raw)
        ctx.ev("hunks")
    ctx.expect(a[ia:] == b[ib:], f"{at}: lines after {ia} differ, but aren't shown", file=raw)
    ctx.expect(n > 0, f"{at}: no line is marked", file=raw)
    ctx.ev("different lines", n)


def html_lines(text):
    """texts of both sides of the table"""
    left, right = [], []
    for row in re.findall(r"<tr>(.*?)</tr>", text, re.S):
        cells = re.findall(r'<td([^>]*)>(.*?)</td>', row, re.S)
        if len(cells) < 6:
            continue
        # next link, number, text, next link, number, text
        for side, k in ((left, 2), (right, 5)):
            t = re.sub(r"<[^>]+>", "", cells[k][1])
            side.append(html.unescape(t).replace("\xa0", " "))
    return left, right


def change(r, e, items):
    """-> items with a few changes, what was done"""
    items = list(items)
    what = []
    for _ in range(r.choice((1, 1, 1, 2, 4))):
        op = r.choice(("content", "content", "content", "add", "remove", "swap"))
        ks = [k for k, (i, _, _) in enumerate(items) if i not in lib.CONTEXT_IDS and i != 2]
        if op == "add" or not ks:
            i = r.choice(lib.BODY_IDS)
            items.insert(r.randint(3, len(items) - 1), (i, *ref.entry(e, i)))
            op = "add"
        elif op == "content":
            k = r.choice(ks)
            items[k] = (items[k][0], *ref.entry(e, items[k][0]))
        elif op == "remove":
            del items[r.choice(ks)]
        else:
            j, k = r.choice(ks), r.choice(ks)
            items[j], items[k] = items[k], items[j]
        what.append(op)
    return items, what


def run(ctx):
    ctx.rule = (
        "pairs of generated files (entries of all types) and generated fonts of which the second is "
        "a changed copy, or has the same content in another binary form: the hunks of the output "
        "must turn the lines of the one file into those of the other, the HTML table must have "
        "all different lines"
    )
    n = 0
    d = Path("w")
    while ctx.more(n, 60):
        r = ctx.sub("p", n)
        kind = r.choice(("same", "recoded", "changed", "changed", "changed", "font", "font", "long"))
        if kind == "long":
            # texts that differ somewhere, most of them at the end
            e, items = lib.random_file(r, n=r.randint(0, 6), canon=True)
            size = r.choice((60, 100, 255, 256, 512, 1000, 1024, 2048, 4096, 9000)) + r.randint(-3, 60)
            text = "".join(r.choice("abcdefghij klmnop") for _ in range(size))
            k = r.choice((size - 1, size - 1, r.randrange(size)))
            i = r.choice((1037, 1038, 1061, 1069, 2025, 1024))
            at = r.randint(3, len(items) - 1)
            pair = []
            for t in (text, text[:k] + "Z" + text[k + 1:]):
                pair.append(lib.pack(items[:at] + [(i, t, t.encode())] + items[at:]))
            raw_a, raw_b = pair
            what = [size, k]
        elif kind == "font":
            g, entries, raw_a = fontgen.gen(r, nglyphs=r.randint(1, 5))
            v = decoded(raw_a)
            e = r.choice([e for e in v.entries if e.id == 2001])
            k = r.choice(("width", "name", "node"))
            if k == "node" and e.data.get("nodes"):
                p = r.choice(e.data["nodes"])["points"][0]
                p[0] = (p[0][0] + r.choice((-1, 1)), p[0][1])
            elif k == "name":
                e.data["name"] += "x"
            else:
                x, y = e.data["metrics"][0]
                e.data["metrics"][0] = (x + 1, y)
            raw_b = lib.dump(v)
            what = [k]
        else:
            e, items = lib.random_file(r, n=r.randint(0, 20), canon=kind != "recoded")
            # bytes which have no JSON form
            raw_a = lib.pack(items)
            what = []
            if kind == "changed":
                items, what = change(r, e, items)
                raw_b = lib.pack(items, r.choice((4, 4, 4, 3)))
            elif kind == "recoded":
                v = decoded(raw_a)
                raw_b = lib.dump(v)
            else:
                raw_b = raw_a
        n += 1
        ctx.ev("long lines", kind == "long" and what[0] > 600)
        d.mkdir()
        try:
            one(ctx, r, d, f"pair {n - 1} ({kind} {what})", raw_a, raw_b)
        finally:
            shutil.rmtree(d)
        if len(ctx.violations) > 10:
            return
    ctx.require(**{"long lines": 3, "different": 25, "same": 8, "hunks": 40, "HTML": 10,
                   "same content in other bytes": 3})


def cost(a, b):
    """pairs of lines in the biggest replaced block: difflib's HTML needs time for each, more than once"""
    m = difflib.SequenceMatcher(None, a, b)
    return max(((i2 - i1) * (j2 - j1) for op, i1, i2, j1, j2 in m.get_opcodes() if op == "replace"),
               default=0)


def one(ctx, r, d, at, raw_a, raw_b):
    a, b = d / r.choice(("a.vfb", "a b.vfb")), d / r.choice(("b.vfb", "é.vfb"))
    a.write_bytes(raw_a)
    b.write_bytes(raw_b)
    va, vb = decoded(raw_a), decoded(raw_b)
    la, lb = lines_of(va), lines_of(vb)
    diff = differ(raw_a, raw_b)
    ctx.ev("different" if diff else "same")
    ctx.ev("same content in other bytes", not diff and raw_a != raw_b)
    res = cli.call("vfbdiff", a, b)
    if not ctx.expect(res.ok, f"{at}: {res.why}", file=raw_a, other=raw_b):
        return
    ctx.case((at, ctx.seed, raw_a), diff)
    if not diff:
        ctx.expect(not res.out.strip(), f"{at}: shows {core.short(res.out)}", file=raw_a, other=raw_b)
    elif ctx.expect(res.out.strip(), f"{at}: shows nothing", file=raw_a, other=raw_b):
        check_unified(ctx, at, res.out, la, lb, raw_a)
    ctx.expect(cli.tree(d) == {a.name: raw_a, b.name: raw_b}, f"{at}: files were changed")
    if r.random() < 0.4 and len(la) + len(lb) < 3000 and cost(la, lb) < 20000:
        out = d / "out.html"
        if r.random() < 0.3:
            out.write_text("old" * 1000)
        res = cli.call("vfbdiff", "--html", out, a, b)
        if not ctx.expect(res.ok and out.exists(), f"{at}: --html: {res.why}", file=raw_a, other=raw_b):
            return
        ctx.ev("HTML")
        left, right = html_lines(out.read_text("utf-8"))
        if not diff:
            ctx.expect("No Differences Found" in "".join(left + [out.read_text("utf-8")])
                       and not any(s.strip() for s in left + right if "No Diff" not in s),
                       f"{at}: the HTML shows {left[:5]}", file=raw_a, other=raw_b)
            return
        from collections import Counter

        for side, have, mine, other in (("first", left, la, lb), ("second", right, lb, la)):
            have = Counter(norm(s).rstrip() for s in have)
            only = Counter(s.rstrip().replace("\t", " ") for s in mine)
            only.subtract(Counter(s.rstrip().replace("\t", " ") for s in other))
            miss = [s for s, c in only.items() if c > 0 and have[s] < c and "\t" not in s
                    and "\xa0" not in s]
            ctx.expect(not miss, f"{at}: the HTML doesn't show {miss[:3]} of the {side} file",
                       file=raw_a, other=raw_b)
            ctx.ev("HTML lines", sum(c for c in only.values() if c > 0))
