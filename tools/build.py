#!/usr/bin/env python3
"""Builds harnesses against /repo's *current* working tree.

Objects go to /verif/build/<variant>/ and are reused only when the sha256 of
every file the compiler read (depfile) is unchanged.
"""
import hashlib, json, os, subprocess, sys, concurrent.futures as cf, shutil, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))

DEFS = ["-DRAPIDJSON_HAS_STDSTRING=1", "-DTINYSPLINE_DOUBLE_PRECISION",
        "-DBOOST_MATH_DISABLE_FLOAT128=1", "-DBOOST_ASIO_DISABLE_CONCEPTS=1",
        "-DFMT_HEADER_ONLY=1", "-DFMT_CONSTEVAL=", "-DFMT_DEPRECATED_OSTREAM=1",
        "-D_GLIBCXX_CHRONO_IO_H=1", "-D_GLIBCXX_FORMAT=1"]
VARIANTS = {
    "std": ["-O1", "-g0"],
    "par": ["-O1", "-g0", "-DOSSIA_PARALLEL=1"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
}

CORE = """
audio/audio_device audio/audio_engine audio/audio_parameter audio/audio_protocol
context
dataflow/control_inlets dataflow/data dataflow/execution_state dataflow/graph/graph dataflow/graph_node
dataflow/nodes/state dataflow/port
detail/instantiations detail/thread
editor/curve/curve editor/exceptions editor/expression/expression editor/expression/expression_atom
editor/expression/expression_bool editor/expression/expression_composition editor/expression/expression_generic
editor/expression/expression_not editor/expression/expression_pulse
editor/scenario/clock editor/scenario/detail/scenario_execution editor/scenario/detail/scenario_offset
editor/scenario/detail/scenario_sync_execution editor/scenario/detail/scenario_sync_musical_execution
editor/scenario/execution_log editor/scenario/scenario editor/scenario/time_event editor/scenario/time_interval
editor/scenario/time_process editor/scenario/time_sync
editor/state/message editor/state/state editor/state/state_element editor/loop/loop
network/base/device network/base/name_validation network/base/node network/base/node_attributes
network/base/node_functions network/base/osc_address network/base/parameter network/base/protocol
network/common/complex_type network/common/debug network/common/device_parameter network/common/extended_types
network/common/path network/context network/dataspace/dataspace network/dataspace/dataspace_visitors
network/dataspace/detail/dataspace_impl
network/domain/clamp network/domain/clamp_max network/domain/clamp_min network/domain/detail/domain_impl
network/domain/domain_base network/domain/fold network/domain/wrap
network/exceptions network/generic/alias_node network/generic/generic_device network/generic/generic_node
network/generic/generic_parameter network/local/local network/minuit/detail/minuit_impl network/minuit/minuit
network/osc/detail/osc_messages network/osc/osc
network/oscquery/detail/attributes network/oscquery/detail/html_writer network/oscquery/detail/json_reader_detail
network/oscquery/detail/json_writer_detail network/oscquery/detail/osc_writer network/oscquery/detail/query_parser
network/oscquery/detail/typetag network/oscquery/oscquery_mirror network/oscquery/oscquery_server
network/rate_limiting_protocol network/value/value network/zeroconf/zeroconf
preset/exception preset/preset
protocols/midi/midi_device protocols/midi/midi_node protocols/midi/midi_parameter protocols/midi/midi_protocol
protocols/artnet/dmx_parameter
protocols/osc/osc_factory protocols/oscquery/oscquery_mirror_asio protocols/oscquery/oscquery_server_asio
ossia
""".split()

_hash_cache = {}
_lock = threading.Lock()

def fhash(p):
    with _lock:
        h = _hash_cache.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        with _lock:
            _hash_cache[p] = h
    return h

def flags(variant):
    return (["-std=c++20", "-w", "-fPIC", "-pthread"] + VARIANTS[variant] + DEFS +
            ["-I" + VERIF + "/include", "-I" + VERIF + "/shims", "-I" + REPO + "/src", "-I" + VERIF + "/harness",
             "-isystem", REPO + "/3rdparty/timertt", "-isystem", "/usr/include/concurrentqueue/moodycamel"])

class BuildError(Exception):
    pass

def compile_one(src, variant, extra=()):
    od = os.path.join(BUILD, variant)
    os.makedirs(od, exist_ok=True)
    name = src.replace("/", "_").lstrip("_")
    if extra:
        name += "." + hashlib.sha256(" ".join(extra).encode()).hexdigest()[:8]
    obj = os.path.join(od, name + ".o")
    meta = obj + ".json"
    cmd = ["g++"] + flags(variant) + list(extra)
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["cmd"] == cmd and all(fhash(p) == h for p, h in m["deps"].items()):
                return obj
        except Exception:
            pass
    dep = obj + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", obj + ".tmp"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("compile failed: %s\n%s" % (src, r.stdout[-4000:]))
    os.replace(obj + ".tmp", obj)
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    json.dump({"cmd": cmd, "deps": {d: fhash(d) for d in deps}}, open(meta, "w"))
    return obj

def build(harness, units, variant="std", extra_src=(), libs=(), defs=(), lazy=False):
    """harness: file under harness/; units: list of paths under src/ossia (no .cpp)."""
    srcs = [(REPO + "/src/ossia/" + u + ".cpp", ()) for u in units]
    srcs += [(VERIF + "/harness/" + s, tuple(defs)) for s in [harness] + list(extra_src)]
    # slow ones first
    slow = ("preset/preset", "oscquery", "domain_impl", "execution_state", "harness/", "osc_factory", "dataspace")
    order = sorted(srcs, key=lambda s: not any(x in s[0] for x in slow))
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VP_JOBS", "8"))) as ex:
        objs = list(ex.map(lambda s: compile_one(s[0], variant, s[1]), order))
    exe = os.path.join(BUILD, variant, os.path.splitext(harness)[0])
    hobjs = [o for o, s in zip(objs, order) if "/harness/" in s[0]]
    lobjs = [o for o, s in zip(objs, order) if "/harness/" not in s[0]]
    ar = exe + ".a"
    if os.path.exists(ar):
        os.unlink(ar)
    if lobjs:
        subprocess.run(["ar", "qcsT", ar] + lobjs, check=True)
    cmd = ["g++", "-pthread"] + [f for f in VARIANTS[variant] if f.startswith("-fsan")] + hobjs
    cmd += ([ar] if lobjs else []) + ["-o", exe] + list(libs)
    if lazy:  # parts of the library the harness never enters are left out
        cmd += ["-Wl,--unresolved-symbols=ignore-all"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("link failed: %s\n%s" % (harness, r.stdout[-6000:]))
    return exe

if __name__ == "__main__":
    import time
    t = time.time()
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        def one(u):
            t0 = time.time()
            compile_one(REPO + "/src/ossia/" + u + ".cpp", "std")
            return (time.time() - t0, u)
        for d, u in sorted(ex.map(one, CORE), reverse=True)[:25]:
            print("%.1f %s" % (d, u))
    print("total", time.time() - t)
