#!/usr/bin/env python3
"""mini.py BIN HARNESS SEED [k=v ...]: minimise one failing seed and print its decisions (development aid)"""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dsimrun as D
b, h, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
sc = {"bin": b, "h": h, "cpu": 20, "p": dict(x.split("=") for x in sys.argv[4:])}
d = D.scratch_base()
rec = d + "/rec"
r = D.run_one(sc, seed, d, record=rec)
print(r["class"], r["msg"])
lines = open(rec).readlines()
m = D.minimise(sc, seed, r["class"], lines, d)
m = m[0]
open(d + "/m", "w").write("".join(m))
r = D.run_one(sc, seed, d, replay=d + "/m")
print(r["class"], r["msg"], "|", r["sample"])
print("".join(m))
shutil.rmtree(d)
