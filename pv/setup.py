"""Compile the Lean library modules (idempotent)."""
import glob
import os
from . import leanrun
if __name__ == "__main__":
    mods = ["Pv." + os.path.basename(p)[:-5] for p in sorted(glob.glob(os.path.join(leanrun.LIBDIR, "Pv", "*.lean")))]
    leanrun.build_libs(mods)
    print("compiled", ", ".join(mods))
