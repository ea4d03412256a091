from vcommon import REPO


def lose(x):
    for e in x["ev"]:
        if e["e"] == "counters" and e["v"]:
            e["v"][0][1] -= 1
            return True
    return False


def twice(x):
    for e in x["ev"]:
        if e["e"] == "meas" and e["v"]:
            e["v"][0][1].append(e["v"][0][1][0])
            return True
    return False


def run(c):
    c.model("RecordConc", must_cover=["IncAtomic", "Claim", "Fill"])
    c.model("RecordConc", "RecordConc_plain.cfg", expect="violated")
    exe = c.build_sched("conc_record", ["conc_record.cpp", REPO + "/src/utils/Timings.cpp"])
    t = c.drive(exe, ["--programs", c.q(60, 600), "--budget", c.q(1200, 8000), "--bound", c.q(2, 3)])
    c.validate("RecordConcTrace", t)
    c.control("RecordConcTrace", t, lose)
    c.control("RecordConcTrace", t, twice)
    c.assumptions += ["sequentially consistent execution of atomic operations", "traits are written by one thread"]
