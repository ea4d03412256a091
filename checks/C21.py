import tria


def wrong(kind, at, f):
    def g(x):
        for e in x["ev"]:
            if e.get("k") == kind:
                for t in e["t"]:
                    if f(t, at):
                        return True
        return False
    return g


def flip(t, at):
    t[at] = not t[at]
    return True


def shift(t, at):
    t[at][0] += 1
    return True


def run(c):
    tria.java()
    c.model("BoxesTest")
    c.model("FloatGeomTest")
    # the library comes first: its definitions win where the linker finds several
    exe = tria.build(c, "box", "box.cpp", dc=False, last=True)
    t = c.drive(exe, ["--n", c.q(4000, 80000)], "boxes", timeout=600)
    c.validate("BoxTrace", t)
    for f in (wrong("point", 3, flip), wrong("within", 4, flip), wrong("meets", 4, flip), wrong("cell", 2, shift),
              wrong("hull", 1, shift), wrong("border", 3, shift)):
        c.control("BoxTrace", t, f)
    c.assumptions += ["box and ball coordinates are integers times a power of two that are small enough for exact squares; "
                      "cells of arbitrary width are checked against the bounds the code reports"]
