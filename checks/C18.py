def repeat(x):
    for e in x["ev"]:
        if e["e"] == "part" and e["v"]:
            e["v"] = e["v"] + e["v"][:1]
            return True
    return False


def says_empty(x):
    for e in x["ev"]:
        if e["e"] == "part" and e["v"]:
            e["empty"] = True
            return True
    return False


def run(c):
    c.model("BlockStore", must_cover=["DoSplit"])
    c.model("BlockStore", "BlockStore_nobackoff.cfg", expect="violated")
    exe = c.build("range_split", ["range_split.cpp"], libs=("-ltbb", "-lboost_serialization"))
    t = c.drive(exe, ["--mode", "rand", "--n", c.q(8000, 60000)], "rand")
    c.validate("RangeTrace", t)
    s = c.drive(exe, ["--mode", "small"] + (["--n", 15625, "--step", 5] if c.tier == "quick" else ["--n", 78125]), "small")
    c.validate("RangeTrace", s)
    c.control("RangeTrace", t, repeat)
    c.control("RangeTrace", t, says_empty)
