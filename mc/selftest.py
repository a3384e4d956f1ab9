"""setup: the interpreter, the libraries and the code under test can be loaded, every check module declares groups"""
import glob
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = [sys.argv[0], "C01"]
import re

n = 0
for p in sorted(glob.glob(os.path.join(ROOT, "mc", "props", "c[0-9][0-9].py"))):
    k = len(re.findall(r"^@group\(", open(p).read(), re.M))
    assert k, p
    n += k
import jax, jaxopt, flax, numpy  # noqa: E401,F401

print(f"jax {jax.__version__}, {n} groups")
