"""Builds the MIR driver and the native LP core; warms nothing else."""
import os, subprocess, sys
from . import program


def setup():
    os.makedirs(os.path.join(program.ROOT, "build"), exist_ok=True)
    program.build_driver()
    build_lp()
    print("driver and LP core built")
    return 0


def build_lp():
    out = os.path.join(program.ROOT, "build", "liblp.so")
    src = os.path.join(program.ROOT, "sa", "lp", "lp.rs")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    r = subprocess.run(["rustc", "--edition", "2021", "-O", "-C", "panic=abort", "--crate-type", "cdylib", "-o", out, src])
    if r.returncode:
        print("native LP core not built; the Python one is used", file=sys.stderr)
    return out
