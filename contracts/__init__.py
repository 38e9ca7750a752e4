import importlib
import os


def modules():
    d = os.path.dirname(os.path.abspath(__file__))
    return sorted(f[:-3] for f in os.listdir(d) if f.startswith("c") and f.endswith(".py") and f[1:3].isdigit())


def ALL():
    out = []
    for m in modules():
        out.extend(importlib.import_module("contracts." + m).CONTRACTS)
    return out
