"""C09 protection: all histories of public operations up to a depth, run on
the real object and on the operational model (refused or accepted, entries,
protection)."""
from .. import model, ref
from ..engine import call

PROPERTY = "C09"
TECHNIQUE = ("stateless exhaustive exploration of all operation histories up "
             "to a depth, real object and operational model in lockstep")

OBJECTS = [["SimpleFreeFieldHRIR", "1.0", False], ["GeneralTF", "2.0", False],
           ["SimpleHeadphoneIR", "1.0", True]]
V = ["s", "changed"]
# operations that work for each of the objects
CORE = [
    ["set", "GLOBAL_Version", V], ["set", "GLOBAL_SOFAConventions", V],
    ["set", "GLOBAL_DataType", ["s", "TF"]], ["set", "NewEntry", ["n", 1]],
    ["set", "GLOBAL_Title", V], ["set", "SourcePosition",
                                 ["list", [[1, 2], [3]]]],
    ["set", "verify", V], ["set", "list_dimensions", V],
    ["set", "Mine", ["n", 2]],
    ["del", "GLOBAL_Title"], ["delete", "SourcePosition"],
    ["del", "GLOBAL_Comment"], ["delete", "NoEntry"], ["del", "copy"],
    ["del", "Mine"], ["delete", "GLOBAL_SOFAConventionsVersion"],
    ["add", "Mine", ["n", 1], "double", "I"],
    ["add", "Mine", ["list", [[1], [2, 3]]], "double", "MC"],
    ["add", "Data_Mine", ["n", 1], "double", "I"],
    ["attr", "SourcePosition_Mine", V], ["attr", "Nothing_Mine", V],
    ["prot", False], ["prot", True], ["badprot", ["n", 1]],
    ["badprot", ["n", 0]], ["set", "GLOBAL_Origin", V],
    ["missing", True, True], ["missing", False, False],
    ["verify", "raise", "write"], ["verify", "return", "read"],
    ["verify", "ignore", "write"], ["verify", "print", "write"],
    ["dim", "M"], ["dim", "X"], ["inspect"], ["info", "all"],
    ["info", "nothing"], ["copy"], ["trip"],
    ["set", "ListenerPosition", ["list", [1, 2]]],
    ["set", "GLOBAL_RoomType", ["s", "kitchen"]],
    ["set", "Data_SamplingRate", ["s", "x"]],
    ["upgrade", None], ["upgrade", "GeneralTF_2.0"],
]


def BOUNDS(tier):
    return {"operations": len(CORE), "objects": OBJECTS,
            "depth, all operations": 3 if tier == "thorough" else 2,
            "operations explored deeper": len(DEEP),
            "depth of these": 4 if tier == "thorough" else 3}


# subset explored one operation deeper in the quick tier
DEEP = [i for i, op in enumerate(CORE) if op not in (
    ["set", "list_dimensions", V], ["del", "copy"], ["delete", "NoEntry"],
    ["set", "SourcePosition", ["list", [[1, 2], [3]]]],
    ["delete", "GLOBAL_SOFAConventionsVersion"], ["badprot", ["n", 1]],
    ["badprot", ["n", 0]], ["set", "GLOBAL_Origin", V],
    ["missing", False, False], ["verify", "print", "write"],
    ["verify", "ignore", "write"], ["info", "all"], ["inspect"],
    ["upgrade", None], ["set", "GLOBAL_DataType", ["s", "TF"]],
    ["dim", "X"], ["set", "GLOBAL_RoomType", ["s", "kitchen"]],
    ["attr", "Nothing_Mine", V], ["add", "Data_Mine", ["n", 1], "double",
                                  "I"])]


def cases(tier):
    out = []
    for o in OBJECTS:
        out += [[o, [i], 2] for i in range(len(CORE))]
        if tier == "thorough":
            out += [[o, [i, j], 3, None] for i in range(len(CORE))
                    for j in range(len(CORE))]
    if tier == "thorough":
        out += [[OBJECTS[0], [i, j, k], 4] for i in DEEP for j in DEEP
                for k in DEEP]
    else:
        out += [[OBJECTS[0], [i, j], 3] for i in DEEP for j in DEEP]
    return out


def enabled(m, op):
    if not m.protected:
        # unprotected: only edits that keep the meaning of the object
        if op[0] == "set" and (
                op[1] not in m.ent or op[1] == "GLOBAL_SOFAConventions"):
            return False
        if op == ["delete", "GLOBAL_SOFAConventionsVersion"]:
            return False
    return True


def run(case, ctx):
    obj, prefix, depth = case[:3]
    ops = list(range(len(CORE))) if len(case) == 4 or len(prefix) == 1 \
        else DEEP

    def make():
        return model.Pair(ctx, *obj)

    def check(pair, out, expected):
        pair.check_content()
        pair.check_protection()
        ctx.outcome("accepted" if out.ok else type(out.exc).__name__)

    model.explore(ctx, make, CORE, prefix, depth, enabled, check, ops)
    ctx.sample([CORE[i] for i in prefix])
