"""Edits stay local: only the edited entries change in the written file."""
import copy
import tempfile
from pathlib import Path

from vfbLib.vfb.vfb import Vfb

from vm import core, lib, ref

BUDGET = (15, 400)


def leaves(o, depth=0):
    """(container, key) of every number in lists and dictionaries"""
    items = o.items() if isinstance(o, dict) else enumerate(o) if isinstance(o, list) else ()
    for k, x in list(items):
        if type(x) is int or (isinstance(x, tuple) and x and all(type(y) is int for y in x)):
            yield o, k, depth
        else:
            yield from leaves(x, depth + 1)


def edit_leaf(r, data):
    """Change one number, preferably one deep inside; -> True when there is one"""
    all_ = list(leaves(data))
    deep = [x for x in all_ if x[2] >= 2]
    if not all_:
        return False
    o, k, _ = r.choice(deep if deep and r.random() < 0.8 else all_)
    d = r.choice((1, -1, 5, 100))
    if isinstance(o[k], tuple):
        t = list(o[k])
        t[r.randrange(len(t))] += d
        o[k] = tuple(t)
    else:
        o[k] += d
    return True


def run(ctx):
    ctx.rule = (
        "generated canonical files; random sequences of edits (replace content or one number inside of it, replace "
        "bytes, grow or shrink around 64K, append, insert, remove, move, swap back) with "
        "decoding and writing in between; the written container is read by the model and "
        "compared entry by entry; non-trivial when at least one edit was made"
    )
    junk = {}

    def decode(x):
        if id(x) in junk and isinstance(x.data, bytes):
            ctx.ev("junk left alone")  # it may decode to something by chance
            return
        try:
            x.decompile()
        except Exception:
            ctx.ev("undecodable bytes met")  # they were put there by an edit

    tmp = Path(tempfile.mkdtemp())
    ids = [i for i in lib.BODY_IDS if ref.KIND[i] not in ref.FREE_BYTES]
    n = 0
    while ctx.more(n, 60):
        r = ctx.sub("e", n)
        n += 1
        e, items = lib.random_file(r, n=r.randint(2, 20), ids=ids)
        raw = lib.pack(items)
        v = lib.load(raw)
        model = [(i, b) for i, _, b in items]
        first = 3  # after the prologue
        log = []
        junk.clear()
        bad = False
        for _ in range(r.randint(1, 14)):
            op = r.choice(("content", "content", "inplace", "nested", "nested", "bytes", "big", "append", "insert",
                           "remove", "move", "decode", "write", "none", "unknown", "retype", "copy"))
            k = r.randrange(first, len(model)) if len(model) > first else None
            eid = r.choice(ids)
            log.append((op, k))

            def do():
                nonlocal v
                if op == "content" and k is not None and model[k][0] in ids:
                    i = model[k][0]
                    s, b = ref.entry(e, i)
                    if r.random() < 0.25:
                        decode(v.entries[k])
                    v.entries[k].data = lib.lib_struct(i, s)
                    junk.pop(id(v.entries[k]), None)
                    model[k] = (i, b)
                elif op == "inplace" and k is not None and model[k][0] == 2001:
                    # a change inside of the decoded structure
                    x = v.entries[k]
                    decode(x)
                    if not isinstance(x.data, dict) or "metrics" not in x.data:
                        return
                    nm = e.name()
                    old = x.data["name"].encode("cp1252")
                    x.data["name"] = nm
                    b = model[k][1]
                    head = b"\x01\x09\x07\x01\x01"
                    pre = head + ref.val(len(old)) + old
                    if b.startswith(pre):
                        new = nm.encode("cp1252")
                        model[k] = (2001, head + ref.val(len(new)) + new + b[len(pre):])
                    else:
                        x.data["name"] = old.decode("cp1252")
                elif op == "nested" and k is not None and id(v.entries[k]) not in junk:
                    # one number is changed inside: as if the content had been replaced
                    x = v.entries[k]
                    decode(x)
                    if isinstance(x.data, bytes):
                        return
                    old = copy.deepcopy(x.data)
                    data = x.data
                    if r.random() < 0.5:
                        # the content was looked at before, and it is looked at meanwhile
                        r.choice((x.decompile, x.as_dict, v.as_dict, lambda: repr(x)))()
                        ctx.ev("edits of content which was looked up earlier")
                    if not edit_leaf(r, data):
                        return
                    try:
                        y = lib.new_entry(v, model[k][0], copy.deepcopy(data))
                        y.compile()
                    except Exception:
                        ctx.ev("edits which can't be stored")
                        x.data = old
                        return
                    model[k] = (model[k][0], y.data)
                    ctx.ev("nested edits")
                elif op == "bytes" and k is not None:
                    d = r.randbytes(r.choice((0, 1, 100)))
                    v.entries[k].data = d
                    junk[id(v.entries[k])] = v.entries[k]
                    model[k] = (model[k][0], d)
                elif op == "big" and k is not None:
                    d = r.randbytes(r.choice((65534, 65535, 65536, 65537, 100000)))
                    v.entries[k].data = d
                    junk[id(v.entries[k])] = v.entries[k]
                    model[k] = (model[k][0], d)
                    ctx.ev("sizes around 64K")
                elif op == "retype" and k is not None and model[k][0] in ids:
                    # another kind of entry in its place
                    x = v.entries[k]
                    s, b = ref.entry(e, eid)
                    x.id = eid
                    x.data = lib.lib_struct(eid, s)
                    junk.pop(id(x), None)
                    model[k] = (eid, b)
                    ctx.ev("entries with a new id")
                elif op == "copy" and k is not None and id(v.entries[k]) not in junk:
                    # the data of an entry in a second one
                    x = lib.new_entry(v, model[k][0], copy.deepcopy(v.entries[k].data))
                    v.add_entry(x)
                    model.append(model[k])
                elif op in ("append", "insert"):
                    s, b = ref.entry(e, eid)
                    x = lib.new_entry(v, eid, lib.lib_struct(eid, s))
                    if op == "append":
                        v.add_entry(x)
                        model.append((eid, b))
                    else:
                        at = r.randint(first, len(model))
                        v.entries.insert(at, x)
                        model.insert(at, (eid, b))
                elif op == "unknown":
                    d = r.randbytes(9)
                    at = r.randint(first, len(model))
                    v.entries.insert(at, lib.new_entry(v, 2999, d.hex()))
                    model.insert(at, (2999, d))
                elif op == "remove" and k is not None:
                    del v.entries[k]
                    del model[k]
                elif op == "move" and k is not None:
                    at = r.randrange(first, len(model))
                    v.entries.insert(at, v.entries.pop(k))
                    model.insert(at, model.pop(k))
                elif op == "decode" and k is not None:
                    decode(v.entries[k])
                elif op == "write":
                    observe("intermediate")

            def observe(when):
                p = tmp / "x.vfb"
                v.write(p)
                out = p.read_bytes()
                want = ref.header() + b"".join(ref.frame(i, d) for i, d in model)
                ctx.ev("files written")
                ctx.ev("entries compared", len(model))
                if out != want:
                    # find the entry
                    pos, k2 = 44, None
                    for j, (i, d) in enumerate(model):
                        f = ref.frame(i, d)
                        if out[pos:pos + len(f)] != f:
                            k2 = (j, i, ref.KIND.get(i))
                            break
                        pos += len(f)
                    ctx.violation(f"{when} write after {log}: first difference at entry {k2}",
                                  file=raw, got=out, want=want)

            ok, _ = ctx.guard(f"edits {log}", do, detail={"file": raw})
            if not ok:
                bad = True
                break
            ctx.ev("edits")
        if not bad:
            ctx.guard(f"final write after {log}", observe, "final", detail={"file": raw})
        if len(ctx.violations) > 8:
            return
        ctx.case(repr(log).encode() + raw)
        if n <= 2:
            ctx.sample({"edits": log, "ids": [i for i, _, _ in items]})
    ctx.require(edits=300, **{"nested edits": 60, "entries with a new id": 20,
                              "edits of content which was looked up earlier": 20, "files written": 100, "sizes around 64K": 10})
