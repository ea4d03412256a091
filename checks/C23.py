from vcommon import REPO


def wrong_value(x):
    for e in x["ev"]:
        if e["e"] == "obs":
            e["tr"][0][1].append(48)
            return True
    return False


def wrong_eq(x):
    for e in x["ev"]:
        if e["e"] == "eq":
            e["x"] = not e["x"]
            return True
    return False


def lost_trait(x):
    for e in x["ev"]:
        if e["e"] == "str" and len(e["t"]) > 3:
            e["t"] = e["t"][:2]
            return True
    return False


def run(c):
    c.model("RecordText", must_cover=["Load", "Done"])
    c.model("RecordText", "RecordText_old.cfg", expect="violated")
    exe = c.build("record", ["record.cpp", REPO + "/src/utils/Timings.cpp"])
    t = c.drive(exe, ["--n", c.q(1500, 20000)])
    c.validate("RecordTrace", t)
    for f in (wrong_value, wrong_eq, lost_trait):
        c.control("RecordTrace", t, f)
    c.assumptions += ["names and values cannot be mistaken for separators (TextOps/CleanName, CleanValue)"]
