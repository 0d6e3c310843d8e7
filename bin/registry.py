"""What each property's check consists of."""
STD = ["-std=c++14"]
FAST = STD + ["-O1", "-fopenmp", "-w"]
DRIVERS = {
    "hif": {"name": "hif", "flags": FAST, "tus": [{"src": "hif_%s.cpp" % t} for t in "dszc"] + [{"src": "hif_main.cpp"}]},
}
def gen(mode, num, tys="dszc", **kw):
    d = {"module": "HIFGen", "cfg": "HIFGen.cfg", "num": num, "depth": 40, "salt": sum(map(ord, mode)), "env": {"MODE": mode, "TYS": tys}}
    d.update(kw); return d
def hpart(name, gens, driver="hif", **kw):
    d = {"name": name, "gens": gens, "driver": driver, "trace": ("HIFTrace", "HIFTrace.cfg")}
    d.update(kw); return d
M = lambda m: {"module": m, "cfg": m + ".cfg"}
CHECKS = {
    "P01": {"models": [M("MCHIFObj")], "parts": [hpart("inv", [gen("inverse", 300)], need_events=["inv", "lin"])]},
    "P02": {"models": [M("MCML")], "parts": [hpart("exact", [gen("exact", 700)], need_events=["exact"])]},
    "P03": {"models": [M("MCHIFObj")], "parts": [hpart("adj", [gen("adjoint", 300)], need_events=["adj"])]},
    "P04": {"models": [M("MCHIFObj")], "parts": [hpart("mrhs", [gen("mrhs", 300)], need_events=["mrhs"])]},
    "P05": {"models": [M("MCHIFObj")], "parts": [hpart("hist", [gen("history", 300)], need_events=["solve", "mult", "clear"])]},
    "P06": {"models": [M("MCHIFObj")], "parts": [hpart("repr", [gen("repr", 300)], need_events=["solve"])]},
    "P07": {"models": [M("MCML")], "parts": [hpart("levels", [gen("levels", 300)], need_events=["levels"])]},
    "P08": {"models": [M("MCML")], "parts": [hpart("thres", [gen("levels", 150, salt=5), gen("onesided", 200)], need_events=["levels"])]},
    "P09": {"models": [M("MCPartition")], "parts": [hpart("thr", [gen("thr", 120), gen("conc", 12, depth=10), gen("thrbig", 8, "dz")], need_events=["thr", "conc"], shards=2)]},
    "P10": {"models": [M("MCFilter")], "parts": [hpart("nsp", [gen("nsp", 250)], need_events=["fsolve"])]},
    "P11": {"models": [M("MCIR")], "parts": [hpart("hifir", [gen("hifir", 300)], need_events=["hifir"])]},
    "P12": {"models": [M("MCML")], "parts": [hpart("trunc", [gen("sing", 300)], need_events=["trunc"])]},
}
DRIVERS["cs"] = {"name": "cs", "flags": FAST, "tus": [{"src": "cs_main.cpp"}]}
def g2(module, mode, num, **kw):
    d = {"module": module, "cfg": module + ".cfg", "num": num, "depth": 60, "salt": sum(map(ord, mode)), "env": {"MODE": mode}}
    d.update(kw); return d
def part(name, gens, driver, trace, **kw):
    d = {"name": name, "gens": gens, "driver": driver, "trace": (trace, trace + ".cfg")}
    d.update(kw); return d
CHECKS["P18"] = {"models": [M("MCCS")], "parts": [
    part("enum", [g2("CSGen", "enum", 1, simulate=False)], "cs", "CSTrace", need_events=["mul", "mulm", "split", "perm", "lead", "conv"]),
    part("walk", [g2("CSGen", "walk", 500), g2("CSGen", "tri", 250)], "cs", "CSTrace", need_events=["tri", "prune", "valid", "export"])]}

for w in (32, 64):
    DRIVERS["clib%d" % w] = {"name": "clib%d" % w, "flags": FAST + ["-DLIBHIFIR_INT_SIZE=%d" % w],
                            "tus": [{"src": "@REPO/libhifir/src/libhifir.cpp", "flags": ["-O0"]}] + [{"src": "clib_%s.cpp" % t} for t in "dszc"] + [{"src": "clib_main.cpp"}]}
CHECKS["P13"] = {"models": [M("MCCLib")], "parts": [
    part("proto", [g2("CLibGen", "proto", 400)], "clib32", "CLibTrace", need_events=["create", "setup", "update", "apply", "stats", "errmsg"]),
    part("files", [g2("CLibGen", "mm", 120)], "clib32", "CLibTrace", need_events=["mmq", "mmread", "mmvec"])]}
CHECKS["P14"] = {"models": [M("MCCLib")], "parts": [
    part("num32", [g2("CLibGen", "num", 300)], "clib32", "CLibTrace", need_events=["apply", "stats", "defaults"]),
    part("num64", [g2("CLibGen", "num", 100, salt=3)], "clib64", "CLibTrace", need_events=["apply"])]}

DRIVERS["mm"] = {"name": "mm", "flags": FAST, "tus": [{"src": "mm_main.cpp"}]}
CHECKS["P15"] = {"models": [M("MCMM")], "parts": [
    part("read", [g2("MMGen", "read", 900)], "mm", "MMTrace", need_events=["mm"]),
    part("write", [g2("MMGen", "write", 500)], "mm", "MMTrace", need_events=["mm"])]}

DRIVERS["opt"] = {"name": "opt", "flags": FAST + ["-DLIBHIFIR_INT_SIZE=32"], "tus": [{"src": "@REPO/libhifir/src/libhifir.cpp", "flags": ["-O0"]}, {"src": "opt_main.cpp"}]}
CHECKS["P21"] = {"models": [M("MCOpt")], "parts": [
    part("names", [g2("OptGen", "names", 1, simulate=False)], "opt", "OptTrace", need_events=["set", "repr"]),
    part("walk", [g2("OptGen", "walk", 300)], "opt", "OptTrace", need_events=["set", "stream", "verb", "repr", "defaults", "cdef", "cset", "consts"])]}

DRIVERS["dense"] = {"name": "dense", "flags": FAST, "tus": [{"src": "dense_main.cpp"}]}
CHECKS["P24"] = {"models": [M("MCDense"), M("MCEig"), {"module": "MCDense", "cfg": "MCDense3.cfg", "thorough_only": True}], "parts": [
    part("enum", [g2("DenseGen", "enum", 1, simulate=False)], "dense", "DenseTrace", need_events=["probe"]),
    part("walk", [g2("DenseGen", "walk", 500)], "dense", "DenseTrace", need_events=["probe", "refact", "bad", "badm"])]}

DRIVERS["spv"] = {"name": "spv", "flags": FAST, "tus": [{"src": "spv_main.cpp"}]}
CHECKS["P23"] = {"models": [M("MCSpVec")], "parts": [
    part("walk", [g2("SpVecGen", "walk", 700)], "spv", "SpVecTrace", need_events=["push", "mark", "compress", "restore", "spdrop", "numdrop", "query"]),
    part("drop", [g2("SpVecGen", "drop", 500), g2("SpVecGen", "dropbig", 24)], "spv", "SpVecTrace", need_events=["in", "out"])]}

ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
DRIVERS["arr"] = {"name": "arr", "flags": FAST + ASAN, "tus": [{"src": "arr_main.cpp"}]}
DRIVERS["arrdbg"] = {"name": "arrdbg", "flags": FAST + ASAN + ["-DHIF_DEBUG"], "tus": [{"src": "arr_main.cpp"}]}
CHECKS["P17"] = {"models": [M("MCArr"), {"module": "MCArr", "cfg": "MCArr6.cfg", "thorough_only": True}], "parts": [
    part("handles", [g2("ArrGen", "arr", 500)], "arr", "ArrTrace", need_events=["share", "asg", "masg", "resize", "steal", "fini"]),
    part("dense", [g2("ArrGen", "dm", 400)], "arr", "ArrTrace", need_events=["share", "asg", "resize", "crs", "row", "fini"]),
    part("debug", [g2("ArrGen", "dbg", 200), g2("ArrGen", "dmdbg", 150)], "arrdbg", "ArrTrace", need_events=["resize", "at", "idx"])]}

DRIVERS["aug"] = {"name": "aug", "flags": FAST + ASAN, "tus": [{"src": "aug_main.cpp"}]}
DRIVERS["augdbg"] = {"name": "augdbg", "flags": FAST + ASAN + ["-DHIF_DEBUG"], "tus": [{"src": "aug_main.cpp"}]}
CHECKS["P19"] = {"models": [M("MCAug"), {"module": "MCAug", "cfg": "MCAug3.cfg"}], "parts": [
    part("aug", [g2("AugGen", "aug", 500)], "aug", "AugTrace", need_events=["push", "push2", "build", "swap", "defer"]),
    part("augdbg", [g2("AugGen", "aug", 250, salt=9)], "augdbg", "AugTrace", need_events=["push", "swap", "defer"]),
    part("perm", [g2("AugGen", "perm", 200)], "augdbg", "AugTrace", need_events=["swap", "swapinv", "build"])]}
