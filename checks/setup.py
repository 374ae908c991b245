"""Builds every variant once (later builds are incremental)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import ensure
ensure("plain", ("fdbdrv", "iofault", "netfault", "fdb-server", "tools", "pybind"))
ensure("asan", ("fdbdrv", "fdb-server"))
ensure("tsan", ("fdbdrv", "fdb-server"))
print("setup complete")
