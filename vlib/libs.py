"""All library case tables."""
import importlib
import os

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")


def tables():
    out = []
    for f in sorted(os.listdir(HERE)):
        if f.endswith(".py") and f != "__init__.py":
            out.extend(importlib.import_module("lib." + f[:-3]).CASES)
    return out
