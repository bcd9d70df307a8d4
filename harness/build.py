"""Builds matslise from /repo's current working tree, and the drivers of /verif/harness, without touching /repo.

Objects are cached under /verif/build (git-ignored) by the hash of everything that goes into them."""
import hashlib, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = Path(os.environ.get("VERIF_BUILD", VERIF / "build"))

EIGEN = "/usr/include/eigen3"
COMMON = ["-std=c++17", "-w", f"-I{EIGEN}", "-pthread"]

# name -> (compiler, flags)
CONFIGS = {
    "plain": ("g++", ["-O2", "-DNDEBUG"]),
    "quad": ("g++", ["-O1", "-DNDEBUG", "-std=gnu++17", "-DMATSLISE_LONG_DOUBLE", "-DMATSLISE_QUADMATH", "-DBOOST"]),
    # assertions of matslise, Eigen and the standard library stay on in the sanitizer builds
    "asan": ("clang++", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                         "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]),
    "vg": ("g++", ["-O1", "-g", "-DNDEBUG"]), # run by valgrind
    "tsan": ("clang++", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"]),
}
LINK = {"quad": ["-lquadmath"]}


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def headers_hash():
    h = hashlib.sha256()
    for root in (REPO / "matslise", VERIF / "harness"):
        for f in sorted(root.rglob("*")):
            if f.suffix in (".h", ".hpp") and f.is_file():
                h.update(str(f.relative_to(root)).encode() + b"\0" + f.read_bytes() + b"\0")
    return h.hexdigest()


def lib_sources(matscs):
    """All library translation units, whatever their names: everything except the bindings."""
    out = []
    for f in sorted((REPO / "matslise").rglob("*.cpp")):
        top = f.relative_to(REPO / "matslise").parts[0]
        if top in ("pyslise", "js") or (top == "matscs" and not matscs):
            continue
        out.append(f)
    return out


class BuildError(Exception):
    pass


def _compile(args):
    src, obj, cmd = args
    if obj.exists():
        return
    obj.parent.mkdir(parents=True, exist_ok=True)
    tmp = obj.with_name(obj.name + f".{os.getpid()}.tmp")
    r = subprocess.run(cmd + ["-c", str(src), "-o", str(tmp)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(f"compiling {src} failed:\n" + r.stdout.decode(errors="replace")[-3000:])
    os.replace(tmp, obj)


# the slowest first
_ORDER = ["matscs/sector", "matscs_formulas", "periodic", "matslise_formulas", "halfrange", "matscs/matscs"]


def build(config, driver, matscs=False, libs=(), extra=(), jobs=8):
    """Returns the path of the executable for harness/<driver>.cpp linked to the library."""
    cc, flags = CONFIGS[config]
    flags = COMMON + flags + (["-DWITH_MATSCS", "-DMATSLISE_MATSCS"] if matscs else []) + list(extra)
    cmd = [cc] + flags
    hh = headers_hash()
    todo = []
    drv = VERIF / "harness" / f"{driver}.cpp"
    units = [drv] + lib_sources(matscs)
    for src in units:
        inc = [f"-I{REPO}"] if src == drv else []
        key = _sha(hh, src.read_bytes(), " ".join(cmd + inc), src.relative_to(REPO) if src != drv else src.name)
        todo.append((src, BUILD / "obj" / f"{key}.o", cmd + inc))
    objs = [t[1] for t in todo]
    exe = BUILD / "bin" / _sha(*objs, config, *libs)
    if exe.exists():
        return exe

    def rank(t):
        s = str(t[0])
        for i, o in enumerate(_ORDER):
            if o in s:
                return i
        return len(_ORDER) if t[0] != drv else 1

    todo.sort(key=rank)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(_compile, todo))
    exe.parent.mkdir(parents=True, exist_ok=True)
    tmp = exe.with_name(exe.name + f".{os.getpid()}.tmp")
    san = [f for f in flags if f.startswith("-fsanitize")]
    r = subprocess.run([cc] + san + ["-pthread"] + [str(o) for o in objs] + ["-o", str(tmp)] + LINK.get(config, []) + list(libs),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("linking failed:\n" + r.stdout.decode(errors="replace")[-3000:])
    os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2], matscs="matscs" in sys.argv[3:]))
