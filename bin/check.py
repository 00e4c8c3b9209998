#!/usr/bin/env python3
"""check.py <property>: exit 0 held, 1 violated, 2 the check could not be run."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import checks_match, checks_lang, checks_zone, checks_io
MODS = [checks_match, checks_lang, checks_zone, checks_io]


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    f = next((getattr(m, prop.lower()) for m in MODS if hasattr(m, prop.lower())), None)
    if f is None:
        print("no such check", prop)
        return 2
    ck = Check(prop)
    try:
        return f(ck)
    except CheckError as e:
        print(f"[{prop}] the check could not be carried out: {e}", flush=True)
        return 2


sys.exit(main())
