from vcommon import REPO


def mixed(x):
    for e in x["ev"]:
        if e["e"] == "print" and len(e["x"]) > 4:
            e["x"][1], e["x"][2] = e["x"][2] + 1, e["x"][1]
            return True
    return False


def lost(x):
    for e in x["ev"]:
        if e["e"] == "lines" and e["v"]:
            e["v"].pop()
            return True
    return False


def swapped(x):
    for e in x["ev"]:
        if e["e"] == "lines":
            for i in range(len(e["v"]) - 1):
                a, b = e["v"][i], e["v"][i + 1]
                ta, tb = [c for c in a if c != 9][:2], [c for c in b if c != 9][:2]
                if ta == tb:
                    e["v"][i], e["v"][i + 1] = b, a
                    return True
    return False


def run(c):
    c.model("RecordConc", must_cover=["Claim", "Fill"])      # appending to the shared list of messages
    src = REPO + "/src/utils/Logger.cpp"
    exe = c.build("logger", ["logger.cpp", src])
    t = c.drive(exe, ["--n", c.q(500, 5000)], name="ops")
    c.validate("LogTrace", t)
    c.control("LogTrace", t, mixed)
    exe = c.build_sched("conc_logger", ["conc_logger.cpp", src])
    t = c.drive(exe, ["--programs", c.q(80, 600), "--budget", c.q(400, 1500), "--bound", c.q(2, 3)], name="conc")
    c.validate("LogTrace", t)
    c.control("LogTrace", t, lost)
    c.control("LogTrace", t, swapped)
    c.assumptions += ["sequentially consistent execution of atomic operations",
                      "live logging is only ordered while one thread logs at a time (the stream is shared)"]
