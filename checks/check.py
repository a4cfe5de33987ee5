#!/usr/bin/env python3
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base, fmt, jsontext, lib, sd, zc
CHECKS = {}
CHECKS.update(zc.CHECKS)
CHECKS.update(fmt.CHECKS)
CHECKS.update(base.CHECKS)
if __name__ == "__main__":
    sys.exit(lib.main(CHECKS, sys.argv))
