"""property -> how its check is built and run"""
import os
HARN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
def _s(prog, need=("bland", "bliss"), **k):
    return dict(prog=prog, srcs=[prog + ".cpp"], need=need, **k)
SPECS = {}
for p in ("B01", "B02", "B03", "B06", "B07"):
    SPECS[p] = _s("h_bland1", ("bland",))
for p in ("B04", "B05", "B08", "B09", "B10", "B11"):
    SPECS[p] = _s("h_bland2", ("bland",))
for p in ("C01", "C02", "C03"):
    SPECS[p] = _s("h_core")
SPECS["C05"] = _s("h_core", asan=["max_allocation_size_mb=512"])
for p in ("C04", "C06", "F01", "F02", "F03", "F04", "N01", "N02", "N03"):
    SPECS[p] = _s("h_flag", scale=1 if p == "C04" else 5)
for p in ("D01", "D02", "D03", "D04", "D05", "D06", "D07", "D08", "D09"):
    SPECS[p] = _s("h_drift", scale={"D01": 1, "D02": 1, "D03": 4}.get(p, 5))
for p in ("S01", "S02", "S03", "S04", "S05", "S06"):
    SPECS[p] = _s("h_ser")
SPECS["L01"] = _s("h_cli", tools=("bliss_find_hits", "bliss_hits_to_dat", "bliss_generate_channelizer_response"))
SPECS["P01"] = _s("h_pyo", py="p01.py")
SPECS["P02"] = _s("h_pyo", py="p02.py")
SPECS["T01"] = _s("h_thr", variant="tsan", tsan=":halt_on_error=1:suppressions=" + HARN + "/tsan.supp",
                   technique="runtime monitoring: concurrent workloads with disturbed schedules on the real code under ThreadSanitizer, results compared byte for byte with the same work done in turn")
SPECS["R01"] = _s("h_res", variant="plain", env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"},
                   technique="runtime monitoring: the same work repeated on the real code in fresh and used processes with memory and stack soiled with other bytes, results compared byte for byte")
SPECS["R02"] = _s("h_res", variant="plain", env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"},
                   technique="runtime monitoring: the same work repeated on the real code while descriptors, HDF5 identifiers, files and live heap bytes are watched")
SPECS["B12"] = _s("h_big", variant="big",
                   technique="runtime monitoring: arrays beyond 2^31 elements and views far into them driven through the real code (signed overflow trapped), results compared with small arrays and closed forms")
SPECS["B13"] = _s("h_types")
