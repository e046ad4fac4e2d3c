#!/usr/bin/env python3
"""run.py <property>: decides one property (see DESIGN.md)."""
import importlib, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import check

MODULES = ["runtime_checks", "source_checks", "sig_checks", "cli_checks", "project_checks", "goroot_checks", "cover_checks"]
CHECKS = {}
for m in MODULES:
    CHECKS.update(importlib.import_module(m).CHECKS)

if __name__ == "__main__":
    check.main(CHECKS)
