PROPERTY = "C24"
NEEDS = "An address pattern with a class that begins with a dash."
BREAKS = "The dash is taken for a range and the class matches other characters."
EDITS = [("server/wildmat.c", "                if (p[1] == ']' || p[1] == '-')\n", "                if (p[1] == ']')\n")]
DEMO = '''
import ctypes, tempfile
d = tempfile.mkdtemp(prefix="icbdemo."); atexit.register(shutil.rmtree, d, True)
subprocess.run(["gcc", "-shared", "-fPIC", "-w", "-I", CWD + "/server", "-I", CWD, "-I", CWD + "/_build", "-o", d + "/w.so", CWD + "/server/wildmat.c"], check=True)
w = ctypes.CDLL(d + "/w.so")
for p, t, e in ((b"[-A]", b"-", 1), (b"[-A]", b"B", 0), (b"[-A]X", b"AX", 1), (b"[-A]", b"@", 0)):
    check(w.wildmat(t, p) == e, "%r %r" % (p, t))
'''
