"""Builds and runs the C harnesses in /verif/harness against /repo's sources."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
import build
from build import REPO, VERIF, BUILD

FLAGS = ("-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=function -w").split()
ENV = {"ASAN_OPTIONS": "exitcode=86:detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1", "LSAN_OPTIONS": "exitcode=86", "PATH": os.environ.get("PATH", ""), "LC_ALL": "C",
       "ASAN_SYMBOLIZER_PATH": shutil.which("llvm-symbolizer-18") or ""}


def compile(name, sources, wraps=()):
    build.build("asan")          # (for the generated configuration)
    d = BUILD / "harness"
    d.mkdir(exist_ok=True)
    out = d / ("%s.%d" % (name, os.getpid()))
    inc = ["-I", str(BUILD / "asan/cm/generated"), "-I", str(REPO), "-I", str(REPO / "server"), "-I", str(REPO / "pktserv")]
    cmd = ["clang", *FLAGS, *inc, str(VERIF / "harness" / (name + ".c")), *[str(REPO / s) for s in sources], *["-Wl,--wrap=" + w for w in wraps], "-o", str(out)]
    try:
        build.run(cmd)
    except Exception:
        # something they need is elsewhere: with the rest of the server as a library
        t = Path(tempfile.mkdtemp(prefix="icbh."))
        try:
            rest = [f for f in sorted([*(REPO / "server").glob("*.c"), *(REPO / "pktserv").glob("*.c")]) if str(f.relative_to(REPO)) not in sources]
            objs = []
            for f in rest:
                o = t / ("%s_%s.o" % (f.parent.name, f.stem))
                if subprocess.run(["clang", *FLAGS, *inc, "-Dmain=icbd_main", "-c", str(f), "-o", str(o)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
                    objs.append(str(o))
            build.run(["ar", "rcs", str(t / "rest.a"), *objs])
            cmd += [str(t / "rest.a"), "-Wl,--allow-multiple-definition", "-lssl", "-lcrypto", "-lcrypt"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            lost = set(re.findall(r"undefined reference to `(\w+)'", r.stdout.decode(errors="replace")))
            if r.returncode:                # (what nothing in the server has either, is never called)
                (t / "lost.c").write_text("".join("void %s(void) { __builtin_trap(); }\n" % x for x in sorted(lost)))
                build.run([*cmd, str(t / "lost.c")])
        finally:
            shutil.rmtree(t, ignore_errors=True)
    return out


def run(exe, args, timeout=800):
    """-> (status, output) in a scratch directory of its own"""
    d = tempfile.mkdtemp(prefix="icbh.")
    try:
        p = subprocess.run([str(exe), *map(str, args)], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("latin1")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("latin1")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(ctx, exe, name, jobs, timeout=800):
    """runs all jobs (argument lists) in parallel; deviations become violations"""
    import runner
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda a: (a, *run(exe, a, timeout)), jobs))
    for a, rc, out in res:
        if rc == "timeout":
            rc, out = run(exe, a, timeout)
            if rc == "timeout":
                ctx.violation("%s-hang" % name, "no end within %d s (twice): %s" % (timeout, a), dict(harness=name, args=a, output=out[-1000:]))
                continue
        m = re.search(r"^SUMMARY (\{.*\})$", out, re.M)
        if rc == 0 and m:
            for k, v in json.loads(m.group(1)).items():
                ctx.count("%s: %s" % (name, k), v)
            continue
        mm = re.search(r"^MISMATCH (\S+) (.*)$", out, re.M)
        if mm:
            ctx.violation("%s-%s" % (name, mm.group(1)), out[-3000:], dict(harness=name, args=a, output=out[-3000:]))
        elif "Sanitizer" in out or "runtime error" in out:
            ctx.violation("%s-%s" % (name, runner.sanitizer_key(out)), out[:3500], dict(harness=name, args=a, output=out[:6000]))
        elif isinstance(rc, int) and rc < 0:
            ctx.violation("%s-signal%d" % (name, -rc), out[-3000:], dict(harness=name, args=a, output=out[-3000:]))
        else:
            raise RuntimeError("harness %s %s: status %s\n%s" % (name, a, rc, out[-3000:]))
    return res
