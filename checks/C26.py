def wrong(x):
    for e in x["ev"]:
        if e["e"] == "num":
            e["v"][-1][2] = 1 - e["v"][-1][2]
            return True
    return False


def wrong_field(x):
    for e in x["ev"]:
        if e["e"] == "split" and e["f"]:
            e["f"][0].append(97)
            return True
    return False


def run(c):
    c.model("NumText", must_cover=["Read"])
    exe = c.build("numtext", ["numtext.cpp"])
    t = c.drive(exe, ["--n", c.q(100, 2000), "--deep", c.q(0, 1)])
    c.validate("NumTextTrace", t)
    c.control("NumTextTrace", t, wrong)
    c.control("NumTextTrace", t, wrong_field)
