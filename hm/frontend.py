"""Front end: compiles /repo's current working tree to LLVM IR for a configuration and loads it.

The preprocessor definitions, include paths and language standards are those of the repository's own
Makefile (asked for with `make -n`), so a configuration is a set of make variables, exactly as a user
would build it.  Nothing is executed: the compiler only translates, and irx inlines/normalises.
"""
import json, os, re, shlex, subprocess, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import names

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HM_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang"


class ToolError(Exception):
    """The analysis could not be carried out (not a verdict)."""


class NoBuild(ToolError):
    """The program does not exist in this configuration."""


# boundary of inlining for h_malloc.c/memory.c/pages.c: the generator API and the fatal path stay
# calls (they are analysed as their own entry points), everything else is inlined.
KEEP_CHACHA = "chacha_keysetup|chacha_ivsetup|chacha_keystream_bytes|fatal_error"
KEEP_MAIN = "^(get_random_(seed|bytes|u16|u64|u16_uniform|u64_uniform)|random_state_init|random_state_init_from_random_state|%s)$" % KEEP_CHACHA
KEEP_RANDOM = "^(%s)$" % KEEP_CHACHA

CONFIGS = {
    # name: (make variables, extra compiler flags)
    "default": ({"VARIANT": "default"}, []),
    "light": ({"VARIANT": "light"}, []),
    # statistics, one arena, no canary, no zero-on-free, fixed slot order, no extended/large classes,
    # queue-only quarantines, sparse guards
    "plain": ({"VARIANT": "default", "CONFIG_STATS": "true", "CONFIG_N_ARENA": "1",
               "CONFIG_SLAB_CANARY": "false", "CONFIG_ZERO_ON_FREE": "false",
               "CONFIG_WRITE_AFTER_FREE_CHECK": "false", "CONFIG_SLOT_RANDOMIZE": "false",
               "CONFIG_EXTENDED_SIZE_CLASSES": "false", "CONFIG_LARGE_SIZE_CLASSES": "false",
               "CONFIG_SLAB_QUARANTINE_RANDOM_LENGTH": "0", "CONFIG_SLAB_QUARANTINE_QUEUE_LENGTH": "3",
               "CONFIG_REGION_QUARANTINE_RANDOM_LENGTH": "0",
               "CONFIG_REGION_QUARANTINE_QUEUE_LENGTH": "0",
               "CONFIG_GUARD_SLABS_INTERVAL": "4", "CONFIG_SELF_INIT": "false",
               "CONFIG_CLASS_REGION_SIZE": "67108864"}, []),
    # statistics with everything else on, odd quarantine lengths
    "stats": ({"VARIANT": "default", "CONFIG_STATS": "true", "CONFIG_N_ARENA": "3",
               "CONFIG_SLAB_QUARANTINE_RANDOM_LENGTH": "2", "CONFIG_SLAB_QUARANTINE_QUEUE_LENGTH": "0",
               "CONFIG_REGION_QUARANTINE_RANDOM_LENGTH": "5",
               "CONFIG_REGION_QUARANTINE_QUEUE_LENGTH": "0",
               "CONFIG_GUARD_SLABS_INTERVAL": "2"}, []),
    # zeroing off but canaries on (calloc must clear), region queue only
    "nozero": ({"VARIANT": "default", "CONFIG_ZERO_ON_FREE": "false",
                "CONFIG_WRITE_AFTER_FREE_CHECK": "false", "CONFIG_EXTENDED_SIZE_CLASSES": "true",
                "CONFIG_LARGE_SIZE_CLASSES": "false", "CONFIG_SLAB_QUARANTINE_QUEUE_LENGTH": "0",
                "CONFIG_REGION_QUARANTINE_RANDOM_LENGTH": "0",
                "CONFIG_REGION_QUARANTINE_QUEUE_LENGTH": "7"}, []),
    "seal": ({"VARIANT": "default", "CONFIG_SEAL_METADATA": "true", "CONFIG_STATS": "true"}, []),
    "mte": ({"VARIANT": "default"},
            ["--target=aarch64-linux-gnu", "-march=armv8.5-a+memtag", "-I", os.path.join(ROOT, "hm", "stubs"),
             "-isystem", "/usr/include/x86_64-linux-gnu", "-D__regparm__(x)=__unused__", "-DHAS_ARM_MTE",
             "-DPROT_MTE=0x20"]),
    # the Android entry points (heap inspection, tagging switch), with the C library headers at hand
    "android": ({"VARIANT": "default", "CONFIG_STATS": "true"},
                ["--target=aarch64-linux-gnu", "-march=armv8.5-a+memtag", "-I", os.path.join(ROOT, "hm", "stubs"),
                 "-isystem", "/usr/include/x86_64-linux-gnu", "-D__regparm__(x)=__unused__", "-DHAS_ARM_MTE",
                 "-DPROT_MTE=0x20", "-D__ANDROID__", "-DH_MALLOC_PREFIX", "-DM_PURGE=-101", "-DPRIu32=\"u\"", "-Wno-everything"]),
    "androidseal": ({"VARIANT": "default", "CONFIG_STATS": "true", "CONFIG_SEAL_METADATA": "true"},
                    ["-I", os.path.join(ROOT, "hm", "stubs"), "-D__ANDROID__", "-DH_MALLOC_PREFIX",
                     "-DM_PURGE=-101"]),
    # random quarantine lengths beyond 16 bits for small classes
    "bigq": ({"VARIANT": "default", "CONFIG_SLAB_QUARANTINE_RANDOM_LENGTH": "9",
              "CONFIG_SLAB_QUARANTINE_QUEUE_LENGTH": "9", "CONFIG_REGION_QUARANTINE_RANDOM_LENGTH": "65536"}, []),
    "label": ({"VARIANT": "default"}, ["-DLABEL_MEMORY"]),
}


def make_commands(mk):
    with tempfile.TemporaryDirectory(prefix="hm-mk.") as out:
        args = ["make", "-n", "-B", "CC=clang", "CONFIG_NATIVE=false", "OUT=" + out]
        args += ["%s=%s" % kv for kv in mk.items()]
        env = {k: v for k, v in os.environ.items()
               if k not in ("MAKEFLAGS", "MFLAGS", "CPPFLAGS", "CFLAGS", "CXXFLAGS", "LDFLAGS", "VARIANT", "CXX")}
        r = subprocess.run(args, cwd=REPO, capture_output=True, text=True, env=env)
    if r.returncode:
        raise ToolError("make -n failed: " + r.stderr[-500:])
    res = []
    for line in r.stdout.splitlines():
        try:
            w = shlex.split(line)
        except ValueError:
            continue
        if not w or not w[0].startswith("clang") or "-c" not in w:
            continue
        src = [x for x in w[1:] if re.search(r"\.(c|cc|cpp)$", x)]
        flags = []
        it = iter(range(1, len(w)))
        for i in it:
            x = w[i]
            if x in ("-I", "-D", "-isystem", "-include"):
                flags += [x, w[i + 1]]
                next(it, None)
            elif x.startswith(("-D", "-I", "-std=", "-U", "-fsized", "-pthread", "-fno-exc", "-fvisibility")):
                flags.append(x)
        if len(src) == 1:
            res.append((src[0], flags))
    if not any(s.endswith("h_malloc.c") for s, _ in res):
        raise ToolError("the build does not compile h_malloc.c")
    return res


def compile_ir(config, unit="main", keep=KEEP_MAIN, cut=False):
    """returns the irx JSON for the C part ('main') or the C++ part ('cxx') of the library, under the documented names"""
    d = _compile(config, unit, keep, cut, {})
    if unit == "main":
        m = names.mapping(config, d)
        if m:
            try:
                d = _compile(config, unit, keep, cut, m)
            except ToolError:
                m = {}
        f = names.members(config, d)
        d["renamed"] = {**m, **{"%s.%s" % k: v for k, v in f.items()}}
    return d


def _compile(config, unit, keep, cut, rename):
    mk, extra = CONFIGS[config]
    cmds = make_commands(mk)
    irx = os.path.join(ROOT, "build", "irx")
    if subprocess.run(["bash", os.path.join(ROOT, "tools", "build.sh")], capture_output=True).returncode:
        raise ToolError("cannot build irx")
    tmp = tempfile.mkdtemp(prefix="hm-ir.")
    try:
        jobs = []
        for src, flags in cmds:
            cxx = not src.endswith(".c")
            if cxx != (unit == "cxx"):
                continue
            bc = os.path.join(tmp, src.replace("/", "_") + ".bc")
            comp = CLANG + ("++" if cxx else "")
            jobs.append(([comp, "-c", "-emit-llvm", "-O0", "-g", "-w", "-fPIC",
                          "-Xclang", "-disable-O0-optnone", "-Xclang", "-disable-llvm-passes"] + flags + extra +
                         ["-D%s=%s" % x for x in rename.items()] +
                         # what gcc accepts is analysed, too
                         ([] if cxx else ["-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types",
                                          "-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int"]) +
                         ["-fno-stack-protector", os.path.join(REPO, src) if not src.startswith("/") else src,
                          "-o", bc], bc, src))
        if not jobs:
            raise ToolError("no %s sources in the build" % unit)

        def run(j):
            return subprocess.run(j[0], cwd=REPO, capture_output=True, text=True)
        with ThreadPoolExecutor(8) as ex:
            for j, r in zip(jobs, ex.map(run, jobs)):
                if r.returncode:
                    raise NoBuild("%s does not compile in configuration %s: %s" % (j[2], config, r.stderr[-800:]))
        out = os.path.join(tmp, "out.json")
        r = subprocess.run([irx, out, "--keep=" + keep] + (["--cut-locks"] if cut else []) + [j[1] for j in jobs], capture_output=True, text=True)
        if r.returncode:
            raise ToolError("irx failed: " + r.stderr[-500:])
        with open(out) as f:
            d = json.load(f)
        d["config"] = config
        d["sources"] = [j[2] for j in jobs]
        d["flags"] = jobs[0][0]
        return d
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_defs = {}


def defines(config):
    """preprocessor definitions the build passes in a configuration"""
    if config not in _defs:
        mk, extra = CONFIGS[config]
        d = {}
        for src, flags in make_commands(mk):
            if src.endswith("h_malloc.c"):
                for x in flags + extra:
                    if x.startswith("-D"):
                        n, _, v = x[2:].partition("=")
                        d[n] = v or "1"
        _defs[config] = d
    return _defs[config]
