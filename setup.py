#!/usr/bin/env python3
"""Builds every harness package once against /repo, to fill the build cache and
to show early that the toolchain works. Leaves nothing in /repo or /verif."""
import shutil, sys, tempfile
sys.dont_write_bytecode = True
import check

work = tempfile.mkdtemp(prefix="verif-setup-")
try:
    bad = 0
    for name, (binary, error) in check.build(sorted({p for parts in check.PLAN.values() for p, _, _ in parts}), work).items():
        print(name, "ok" if binary else error)
        bad |= binary is None
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(work, ignore_errors=True)
