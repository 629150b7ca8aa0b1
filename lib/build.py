"""Builds instrumented icbd variants from /repo's current working tree."""
import fcntl, hashlib, os, shutil, subprocess, sys
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent
BUILD = VERIF / "build"
ADMIN_PWD = "ci_test_pwd"

WRAPS = ("poll time gettimeofday clock_gettime getnameinfo getaddrinfo gethostname "
         "read write recv send accept close fork open rename unlink fsync fdatasync execve SSL_read SSL_write setsockopt").split()

ASAN = "-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=function"
FLAVOURS = {
    # name: (compiler, cflags, ldflags, cmake options)
    "asan": ("clang", ASAN, ASAN, ["-DICBD_ENABLE_SSL=ON", "-DMAX_USERS=255"]),
    "brick": ("clang", ASAN, ASAN, ["-DICBD_ENABLE_SSL=ON", "-DICBD_BRICK=ON"]),
    "small": ("clang", ASAN, ASAN, ["-DICBD_ENABLE_SSL=ON", "-DMAX_USERS=24"]),
    "msan": ("clang", "-g -O1 -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins",
             "-fsanitize=memory", ["-DICBD_ENABLE_SSL=OFF"]),
    "fortify": ("gcc", "-g -O2 -D_FORTIFY_SOURCE=3 -fstack-protector-all -fsanitize=undefined", "-fsanitize=undefined",
                ["-DICBD_ENABLE_SSL=ON"]),
    "plain": ("gcc", "-g -O1", "", ["-DICBD_ENABLE_SSL=ON"]),
}


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "tests", "prod", "__pycache__"))
        for f in sorted(files):
            p = Path(root) / f
            if p.suffix in (".c", ".h", ".txt", ".in", ".cmake"):
                h.update(str(p.relative_to(REPO)).encode() + b"\0" + p.read_bytes() + b"\0")
    for p in sorted((VERIF / "shim").glob("*.c")):
        h.update(p.read_bytes())
    h.update(Path(__file__).read_bytes())
    return h.hexdigest()[:24]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("build failed: %s\n%s" % (" ".join(map(str, cmd)), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout


def build(flavour="asan"):
    """Returns the path of the icbd binary of that flavour, building if stale."""
    cc, cflags, ldflags, opts = FLAVOURS[flavour]
    d = BUILD / flavour
    d.mkdir(parents=True, exist_ok=True)
    with open(BUILD / (flavour + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp, want = d / "stamp", tree_hash()
        binp = d / "cm" / "server" / "icbd"
        if stamp.exists() and stamp.read_text() == want and binp.exists():
            return binp
        if stamp.exists():
            stamp.unlink()
        shutil.rmtree(d / "cm", ignore_errors=True)
        shim = d / "shim.o"
        san = "" if flavour == "plain" else cflags
        run([cc, "-c", str(VERIF / "shim/shim.c"), "-o", str(shim)] + (san.split() or ["-O1", "-g"]))
        wrap = ",".join("--wrap=" + w for w in WRAPS)
        gen = ["-G", "Ninja"] if shutil.which("ninja") else []
        run(["cmake", "-S", str(REPO), "-B", str(d / "cm"), *gen, "-DCMAKE_C_COMPILER=" + cc,
             "-DCMAKE_BUILD_TYPE=None", "-DADMIN_PWD=" + ADMIN_PWD, "-DBUILD_TESTING=OFF",
             "-DCMAKE_C_FLAGS=" + cflags + " -w", *opts,
             "-DCMAKE_EXE_LINKER_FLAGS=%s %s -Wl,%s" % (ldflags, shim, wrap)])
        run(["cmake", "--build", str(d / "cm"), "--target", "icbd", "-j", "8"])
        stamp.write_text(want)
        return binp


if __name__ == "__main__":
    for f in (sys.argv[1:] or ["asan"]):
        print(f, build(f))
