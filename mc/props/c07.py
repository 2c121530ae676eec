"""C07 inspection: the report of every object of a bounded space (valid and
violating) is parsed and compared with the entries; the report of a stream on
the saved file is compared with the same entries."""
import itertools
import os

import numpy as np

from .. import model, objs, ref, report
from ..engine import call

PROPERTY = "C07"
TECHNIQUE = ("exhaustive enumeration of objects (sizes, customs, invalid "
             "shapes and types); parsed reports of the real code compared "
             "with the content")


def valid(tier):
    out = []
    for conv in objs.WRITABLE:
        for sizes in objs.size_space(conv[0], conv[1],
                                     small=tier != "thorough"):
            for combo in (0, "mix"):
                out.append({"conv": list(conv), "sizes": sizes,
                            "combo": combo})
        for sizes in list(objs.size_space(conv[0], conv[1], False))[::5]:
            for rep in ("trim", "list", "int", "missing"):
                out.append({"conv": list(conv), "sizes": sizes, "rep": rep})
        out.append({"conv": list(conv)})
    custom = [("double", d, v) for d, v in objs.CUSTOM_DOUBLE] + \
        [("string", d, v) for d, v in objs.CUSTOM_STRING]
    for a in custom:
        c = objs.with_custom(a)
        c["custom"] += [["CustomX_Units", ["s", "furlong"], "attribute",
                         None], ["GLOBAL_Mine", ["s", ""], "attribute",
                                 None]]
        out.append(c)
    for t in objs.TEXTS:
        if "\n" in t:
            continue
        out.append({"conv": objs.BASE, "set": [
            ["GLOBAL_Title", ["s", t]], ["GLOBAL_Comment", ["s", t]]]})
        out.append({"conv": ["SimpleHeadphoneIR", "1.0"], "texts": [t, "b"],
                    "sizes": {"M": 2, "R": 1, "N": 1, "E": 1}})
    for n in range(1, 9):                # number of values around the limit
        out.append({"conv": objs.BASE,
                    "sizes": {"M": 1, "R": 1, "N": n, "E": 1}})
        out.append({"conv": objs.BASE,
                    "sizes": {"M": n, "R": 1, "N": 2, "E": 1}})
    return out


SHAPES = [[1, 1], [1, 2], [2, 1], [2, 3], [1, 3], [3, 1], [2, 2, 2],
          [1, 1, 2], [1, 6], [1, 7], [1, 1, 1, 1, 2], [2]]
INVALID = [["SourcePosition", ["n", 1]], ["Data_IR", ["s", "text"]],
           ["GLOBAL_Title", ["n", 5]], ["GLOBAL_Title", ["list", [1, 2]]],
           ["Data_SamplingRate", ["s", "x"]],
           ["GLOBAL_RoomType", ["s", "kitchen"]],
           ["ListenerPosition_Units", ["s", "Inch"]],
           ["Data_Delay", ["list", [1, 2, 3]]],
           ["Data_IR", ["py", "complexarray"]]]


def invalid(tier):
    out = []
    for k in ("Data_IR", "SourcePosition", "Data_SamplingRate",
              "ReceiverPosition", "Data_Delay"):
        for s in SHAPES:
            out.append([[k, ["ramp", s]]])
    for r in (1, 2):
        for c in itertools.combinations(INVALID, r):
            out.append([list(x) for x in c])
    for s in SHAPES:
        for i in INVALID:
            out.append([["EmitterPosition", ["ramp", s]], i])
    return out


def BOUNDS(tier):
    return {"valid objects": len(valid(tier)),
            "violating objects": len(invalid(tier)),
            "values listed up to": 6}


def cases(tier):
    v = [["valid", c] for c in valid(tier)]
    i = [["invalid", c] for c in invalid(tier)]
    c = v + i
    return [c[j:j + 12] for j in range(0, len(c), 12)]


def value_text(value):
    return str(value)


def check_report(ctx, text, ent, dims, combos, what, stream=False):
    """combos: {variable: (type, allowed combinations or None)}"""
    entries, order = report.parse(text, set(ent))
    ctx.require(len(order) == len(set(order)), "listed more than once: %s" % [
        k for k in order if order.count(k) > 1], what=what)
    ctx.require(set(order) == set(ent), "entries listed: %s" % sorted(
        set(order) ^ set(ent)), what=what)
    for k, val in ent.items():
        ctx.step()
        head, more = entries[k]
        attribute = combos[k][1] is None
        size = 1 if isinstance(val, str) else int(np.size(val))
        if attribute or size == 1:
            if stream and not attribute and combos[k][0] != "double":
                continue
            full = head
            if isinstance(val, str):
                ok = full == val
            else:
                nums = report.numbers("\n".join([head] + more))
                want = np.ma.compressed(val)       # without missing data
                if want.dtype.kind in "US":
                    ok = str(want[0]) in full if want.size == 1 else True
                elif want.dtype.kind in "iuf":
                    ok = report.close(nums, [float(x) for x in want])
                else:
                    ok = True
            ctx.require(ok, "%s is reported as %r" % (k, full), what=what,
                        value=repr(val)[:300])
            continue
        listed = report.sizes(head)
        ctx.require(listed is not None, "no sizes for %s: %r" % (k, head),
                    what=what)
        shape = tuple(np.shape(val))
        have = [n for _, n in listed]
        squeezed = [n for n in have if n != 1]
        if combos[k][0] == "string" and stream and squeezed:
            # the characters are a dimension of the file
            if listed[-1][0] == "S" and (dims or {}).get("S") != 1:
                squeezed = squeezed[:-1]
        if combos[k][0] == "string" and not stream and squeezed and \
                listed[-1][0] == "S" and (dims or {}).get("S") != 1:
            squeezed = squeezed[:-1]
        ctx.require(squeezed == [n for n in shape if n != 1],
                    "%s of shape %s is reported as %s" % (k, shape, head),
                    what=what)
        letters = "".join(d or "" for d, _ in listed)
        if letters:
            ctx.require(letters in combos[k][1], "%s is reported with "
                        "dimensions %s instead of %s" % (
                            k, letters, combos[k][1]), what=what)
            if dims:
                for d, n in listed:
                    ctx.require(dims[d] == n, "size of %s in %s" % (d, k),
                                what=what)
        else:
            ctx.require(dims is None and not stream,
                        "dimensions of %s are not named: %s" % (k, head),
                        what=what)
        ctx.require(size <= 6 or not "".join(more).strip(),
                    "more than six values of %s are listed: %r" % (
                        k, more[:3]), what=what)
        if size <= 6 and not (stream and combos[k][0] != "double"):
            body = " ".join(more)
            want = np.ma.compressed(val)
            if want.dtype.kind in "iuf":
                ctx.require(report.close(report.numbers(body),
                                         [float(x) for x in want]),
                            "values of %s are reported as %r" % (k, body),
                            what=what, value=repr(val)[:300])
            elif want.dtype.kind == "U":
                pos = 0
                for t in want.tolist():
                    at = body.find(repr(t), pos)
                    ctx.require(at >= 0, "text %r of %s is not reported: %r"
                                % (t, k, body), what=what)
                    pos = at + len(repr(t))


def combos_of(conv, custom):
    out = {}
    for k, s in conv.items():
        out[k] = (s["type"], s["dimensions"] and s["dimensions"].upper()
                  .split(", "))
    for k, (t, d) in custom.items():
        out.setdefault(k, (t, d and d.upper().split(", ")))
    return out


def run(group, ctx):
    sf = ctx.sf
    path = os.path.join(ctx.dir, "i.sofa")
    txt = os.path.join(ctx.dir, "i.txt")
    for kind, case in group:
        if kind == "valid":
            obj, ent, v = objs.content(sf, case)
            conv, custom = objs.conv_of(*case["conv"]), objs.custom_of(case)
        else:
            obj = sf.Sofa(*objs.BASE[:1])
            conv, custom = objs.conv_of(*objs.BASE), {}
            for nm, val in case:
                setattr(obj, nm, ref.make(val))
            ent = ref.entries(obj)
            v = ref.verify(ent, conv, {})
        ent = dict(ent)
        before = ref.snapshot(obj)
        ctx.state(sorted(before.items()))
        for how in ("print", "ignore", "return") if kind == "invalid" else (
                "print",):
            # (over an older report, over a longer file and without a file)
            if how == "ignore" or len(before) % 3 == 0:
                with open(txt, "w") as f:
                    f.write("older report " * 2000)
            elif len(before) % 3 == 1 and os.path.exists(txt):
                os.remove(txt)
            out = call(obj.inspect, txt, issue_handling=how)
            ctx.require(out.ok, "inspect raised %r" % out.exc, what=case)
            with open(txt, encoding="utf-8") as f:
                written = f.read()
            ctx.require(out.stdout.endswith(written) and written.strip(),
                        "the report in the file differs from the printed one",
                        what=case)
            head = written.splitlines()[0]
            ctx.require(obj.GLOBAL_SOFAConventions in head
                        and str(obj.GLOBAL_SOFAConventionsVersion) in head,
                        "header %r" % head, what=case)
            trusted = not (v.types or v.missing or v.shapes or v.conflict)
            check_report(ctx, written, ent, v.dims if trusted else None,
                         combos_of(conv, custom), case)
            out2 = call(obj.inspect, issue_handling=how)
            ctx.require(out2.stdout == out.stdout, "second report differs",
                        what=case)
        ctx.require(ref.snapshot(obj) == before, "inspect changed the object",
                    what=case)
        ctx.outcome(kind)
        ctx.trace()
        if kind == "invalid":
            continue
        out = call(sf.write_sofa, path, obj)
        ctx.require(out.ok, "writing raised %r" % out.exc, what=case)

        def report_of_stream():
            with sf.SofaStream(path) as s:
                s.inspect(txt)
        out = call(report_of_stream)
        ctx.require(out.ok, "inspecting the stream raised %r" % out.exc,
                    what=case)
        with open(txt, encoding="utf-8") as f:
            written = f.read()
        ctx.require(out.stdout == written, "the report of the stream in the "
                    "file differs from the printed one", what=case)
        check_report(ctx, written, ent, None if v.dims["S"] == 0 else v.dims,
                     combos_of(conv, custom), case, stream=True)
        ctx.sample(case)
    for p in (path, txt):
        if os.path.exists(p):
            os.remove(p)
