def flip(x):
    for e in x["ev"]:
        if e["e"] == "ret":
            e["r"] = not e["r"]
            return True
    return False


def miscount(x):
    for e in x["ev"]:
        if e["e"] == "final":
            e["size"] += 1
            return True
    return False


def run(c):
    c.model("BitCas", must_cover=["Load", "Cas", "Count"])
    c.model("BitCas", "BitCas_plain.cfg", expect="violated")
    exe = c.build("conc_bits", ["conc_bits.cpp"], opt="-O2")
    t = c.drive(exe, ["--programs", c.q(150, 1500), "--budget", c.q(4000, 30000), "--bound", c.q(3, 4), "--keep", c.q(60, 100)])
    c.validate("ConcSetTrace", t)
    c.control("ConcSetTrace", t, flip)
    c.control("ConcSetTrace", t, miscount)
    c.assumptions += ["sequentially consistent execution of atomic operations"]
