#!/usr/bin/env python3
"""Checks that the tools the checks use are there; the checks build everything else themselves."""
import shutil, subprocess, sys
missing = [t for t in ("cargo", "cargo-kani", "verus", "z3") if not shutil.which(t)]
print("missing tools:", missing or "none")
sys.exit(1 if missing else 0)
