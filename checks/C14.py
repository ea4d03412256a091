def flip(x):
    for e in x["ev"]:
        if e["e"] in ("set", "unset"):
            e["was"] = not e["was"]
            return True
    return False


def miscount(x):
    for e in x["ev"]:
        if e["e"] == "obs":
            e["ones"] += 1
            return True
    return False


def run(c):
    c.model("BitWords", must_cover=["TestAndSet", "TestAndUnset", "Batch", "Filter", "Merge", "Resize"])
    c.model("BitWords", "BitWords_oldfilter.cfg", expect="violated")
    exe = c.build("bits", ["bits.cpp"], libs=("-ltbb", "-lboost_serialization"))
    t = c.drive(exe, ["--n", c.q(5000, 40000)])
    c.validate("BitSetTrace", t)
    c.control("BitSetTrace", t, flip)
    c.control("BitSetTrace", t, miscount)
    c.assumptions += ["indices passed to a setting call lie inside the set's bounds"]
