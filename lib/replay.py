#!/usr/bin/env python3
"""Replays a recorded violation on a native build of /repo:  replay.py replays/<file>.json"""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); H = os.path.join(V, "harness")
j = json.load(open(sys.argv[1])); d = tempfile.mkdtemp()
try:
    b = os.path.join(d, "n")
    subprocess.check_call(["g++", "-std=c++17", "-O1", "-w", "-fopenmp", "-g", "-I" + H, "-I/repo/include", "-DBSX_TIER=1", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS", "-rdynamic", os.path.join(H, j["harness"] + ".cpp"), os.path.join(H, "rt", "native.cpp"), "-o", b, "-ldl"])
    t = os.path.join(d, "t"); open(t, "w").write(" ".join("%s=%d" % (a, b2) for a, b2 in j["inputs"]) + "\n")
    e = dict(os.environ, BSX_STDERR="1", ASAN_OPTIONS="detect_leaks=0", BSX_TIMEOUT="60"); print(j["message"]); subprocess.call([b, j["entry"], t], cwd=d, env=e)
finally: shutil.rmtree(d, ignore_errors=True)
