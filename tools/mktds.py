#!/usr/bin/env python3
"""Writes stand-ins for the repository's two modified copies of CGAL headers.

include/mods/Indexed_Triangulation_data_structure_{2,3}.h are copies of CGAL 4.x headers in which each new
cell/face takes an id from an index handler; they do not compile with the CGAL installed here.  This script
makes the same modification to the installed CGAL's own headers, so that the repository's triangulators can
be compiled unchanged.   usage: mktds.py OUTDIR
"""
import os, re, sys

CGAL = "/usr/include/CGAL"


def sub(text, old, new, count=None):
    n = text.count(old)
    if n == 0 or (count is not None and n != count):
        sys.exit("mktds: expected %s of %r, found %d" % (count or "some", old, n))
    return text.replace(old, new)


def two():
    t = open(CGAL + "/Triangulation_data_structure_2.h").read()
    # (the data member version with lists has no user; its two out-of-class bodies stay as they are)
    i = t.index("template < class Gt , class Vb, class Fb>")
    j = t.index("template < class Vb, class Fb>", i)
    t = t[:i] + t[j:]
    t = t.replace("CGAL_TRIANGULATION_DATA_STRUCTURE_2_H", "INDEXED_TDS_2_H")
    t = re.sub(r"template\s*<\s*class Vb,\s*class Fb\s*>", "template <class Vb, class Fb, class Ih>", t)
    t = re.sub(r"Triangulation_data_structure_2<\s*Vb\s*,\s*Fb\s*>", "Triangulation_data_structure_2<Vb,Fb,Ih>", t)
    t = sub(t, "Triangulation_data_structure_2<Vb2, Fb>", "Triangulation_data_structure_2<Vb2, Fb, Ih>")
    t = sub(t, "Triangulation_data_structure_2<Vb, Fb2>", "Triangulation_data_structure_2<Vb, Fb2, Ih>")
    t = sub(t, "class Fb = Triangulation_ds_face_base_2<> >",
            "class Fb = Triangulation_ds_face_base_2<>, class Ih = _detail::IndexHandler >", 1)
    t = sub(t, "  Face_range   _faces;\n", "  Ih _indexHandler;\n  Face_range   _faces;\n", 1)
    t = re.sub(r"\bTriangulation_data_structure_2\b", "Indexed_Triangulation_data_structure_2", t)
    t = sub(t, "faces().emplace()", "faces().emplace(_indexHandler)")
    t = sub(t, "f2, f3, f1);", "f2, f3, f1, _indexHandler);", 1)
    t = sub(t, "f2, Face_handle(), f1);\n  f1->set", "f2, Face_handle(), f1, _indexHandler);\n  f1->set", 1)
    t = sub(t, "faces().emplace(v1, v2, v3);", "faces().emplace(v1, v2, v3, _indexHandler);")
    t = sub(t, "faces().emplace(v1, v2, v3, f1, f2, f3);", "faces().emplace(v1, v2, v3, f1, f2, f3, _indexHandler);")
    t = sub(t, "  //CREATORS - DESTRUCTORS\npublic:\n",
            "public:\n  auto maxId() const { return _indexHandler.maxId(); }\n  void disableId() { _indexHandler.disable(); }\n", 1)
    return t


def three():
    t = open(CGAL + "/Triangulation_data_structure_3.h").read()
    t = t.replace("CGAL_TRIANGULATION_DATA_STRUCTURE_3_H", "INDEXED_TDS_3_H")
    t = re.sub(r"template\s*<\s*class Vb,\s*class Cb,\s*class Ct\s*>", "template <class Vb, class Cb, class Ct, class Ih>", t)
    t = re.sub(r"Triangulation_data_structure_3<\s*Vb\s*,\s*Cb\s*,\s*Ct\s*>", "Triangulation_data_structure_3<Vb,Cb,Ct,Ih>", t)
    t = sub(t, "Triangulation_data_structure_3<Vb, Cb, Concurrency_tag_>", "Triangulation_data_structure_3<Vb, Cb, Concurrency_tag_, Ih>")
    t = sub(t, "Triangulation_data_structure_3<Vb2, Cb, Concurrency_tag>", "Triangulation_data_structure_3<Vb2, Cb, Concurrency_tag, Ih>")
    t = sub(t, "Triangulation_data_structure_3<Vb, Cb2, Concurrency_tag>", "Triangulation_data_structure_3<Vb, Cb2, Concurrency_tag, Ih>")
    t = sub(t, "class Concurrency_tag_ = Sequential_tag\n", "class Concurrency_tag_ = Sequential_tag,\n           class Ih = _detail::IndexHandler\n", 1)
    t = re.sub(r"\bTriangulation_data_structure_3\b", "Indexed_Triangulation_data_structure_3", t)
    m = re.search(r"\n  Cell_range\s+_cells;", t)
    t = t[:m.start()] + "\n  Ih _indexHandler;" + t[m.start():]
    n = 0
    def emp(m):
        nonlocal n
        n += 1
        a = m.group(1).strip()
        return "cells().emplace(" + (a + ", " if a else "") + "_indexHandler)"
    t = re.sub(r"cells\(\)\.emplace\(((?:[^()]|\(\))*)\)", emp, t)
    if n != 4:
        sys.exit("mktds: %d cell emplacements" % n)
    i = t.index("  class Cell_data {")
    t = t[:i] + "  auto maxId() const { return _indexHandler.maxId(); }\n  void disableId() { _indexHandler.disable(); }\n" + t[i:]
    return t


def main(out):
    os.makedirs(out + "/mods", exist_ok=True)
    os.makedirs(out + "/CGAL", exist_ok=True)
    head = '#include "utils/IndexHandler.h"\n'
    for name, text in (("2", two()), ("3", three())):
        text = re.sub(r"namespace TDS_%s\b" % name, "namespace ITDS_" + name, text)
        text = re.sub(r"\bTDS_%s::" % name, "ITDS_%s::" % name, text)
        p = out + "/mods/Indexed_Triangulation_data_structure_%s.h" % name
        text = head + text
        if not (os.path.exists(p) and open(p).read() == text):
            open(p, "w").write(text)
    p = out + "/CGAL/triangulation_assertions.h"
    if not os.path.exists(CGAL + "/triangulation_assertions.h"):
        s = "#pragma once\n" + "".join("#define CGAL_triangulation_%s%s(X)\n" % (e, k)
                for e in ("", "exactness_", "expensive_", "expensive_exactness_")
                for k in ("assertion", "precondition", "postcondition", "warning"))
        open(p, "w").write(s)


main(sys.argv[1])
