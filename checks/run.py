#!/usr/bin/env python3
"""run.py PROPERTY: decides one property on /repo's working tree (see DESIGN.md)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, programs, faults, conc, tmpl, ctxget, gencode

TABLE = {p: programs.check for p in programs.FEATURES}

TABLE.update(C07=conc.check, C08=faults.check, C12=tmpl.check, C15=ctxget.check, C18=gencode.check)

if __name__ == "__main__":
    sys.exit(lib.main(TABLE))
