def off_by_one(x):
    for e in x["ev"]:
        if e["e"] == "word":
            e["v"][-1][4] += 1
            return True
    return False


def wrong_log(x):
    for e in x["ev"]:
        if e["e"] == "base":
            e["v"][0][3] += 1
            return True
    return False


def run(c):
    c.model("PowerBits", must_cover=["Smear", "Inc", "Log", "EndLog", "Strip", "EndPow"])
    c.model("PowerBits", "PowerBits_zero.cfg", expect="violated")
    exe = c.build("powers", ["powers.cpp"])
    t = c.drive(exe, ["--n", c.q(2000, 50000)])
    c.validate("PowerTrace", t)
    c.control("PowerTrace", t, off_by_one)
    c.control("PowerTrace", t, wrong_log)
    c.assumptions += ["nextPow2 beyond the largest power the type can represent and logarithms of zero are left open"]
