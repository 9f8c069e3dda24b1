#!/usr/bin/env python3
"""python3 engine/run.py <property id>: decides one property; see DESIGN.md"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.check import main
class Lazy(dict):
    MODS = {}
    def __contains__(self, k): return k in TABLE
    def __getitem__(self, k):
        m, f = TABLE[k].split(":")
        return getattr(importlib.import_module("checks." + m), f)
TABLE = {
    "C01": "pool:c01",
    "C02": "pool:c02",
    "C03": "pool:c03",
    "C04": "pool:c04",
    "C05": "pool:c05",
    "C06": "pool:c06",
    "C07": "pool:c07",
    "C08": "logger:c08",
    "C09": "logger:c09",
    "C10": "logger:c10",
    "C11": "logger:c11",
    "C12": "logger:c12",
    "C13": "logger:c13",
    "C14": "logger:c14",
    "C15": "levels:check",
    "C16": "lru:c16",
    "C17": "lru:c17",
    "C18": "lru:c18",
    "C19": "scope:check",
    "C20": "stopwatch:check",
    "C21": "order:check_range",
    "C22": "icompare:check",
    "C23": "order:check_minmax",
    "C24": "unicode:c24",
    "C25": "unicode:c25",
    "C26": "unicode:c26",
    "C27": "search:check",
    "C28": "transform:c28",
    "C29": "transform:c29",
    "C34": "compile:check",
}
if __name__ == "__main__":
    sys.exit(main(Lazy()))
