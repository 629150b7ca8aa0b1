PROPERTY = 'C15'
NEEDS = 'The server is killed in the middle of a registration being deleted.'
BREAKS = 'Half of the record is left: the nickname is free, and its mailbox waits for whoever registers it next.'
EDITS = [('server/access.c', '    icbdb_delete (nick, "secure");\n    icbdb_delete (nick, "realname");', '    icbdb_close ();\n    icbdb_delete (nick, "secure");\n    icbdb_delete (nick, "realname");'),
         ('server/access.c', '    sends_cmdout(forWhom, "Record Deleted");\n    icbdb_close ();', '    sends_cmdout(forWhom, "Record Deleted");')]
DEMO = r'''
def keys(d):
    p = d + "/icbdb.db"
    b = open(p, "rb").read()
    n, o, out = struct.unpack("<I", b[4:8])[0], 8, {}
    for _ in range(n):
        k, v = struct.unpack("<II", b[o:o + 8])
        out[b[o + 8:o + 8 + k]] = b[o + 8 + k:o + 8 + k + v]
        o += 8 + k + v
    return out
def run(at):
    s = Server(shim=True)
    a = s.user("alice", "1")
    a.send("h", "m", "server p Sesame17")
    a.get()
    a.send("h", "m", "server phone 555")
    a.get()
    n0 = s.get(5)
    before = {k: v for k, v in keys(s.dir).items() if k.startswith(b"alice.")}
    if at:
        s.set(4, n0 + at)
    a.send("h", "m", "server delete Sesame17")
    a.get()
    n1 = s.get(5)
    after = {k: v for k, v in keys(s.dir).items() if k.startswith(b"alice.")}
    s.kill()
    return n1 - n0, before, after
n, b, full = run(0)
check(b"alice.password" not in full, "not deleted: %r" % full)
for at in sorted({1, 2, 3, n // 2, n - 1, n}):
    if at < 1:
        continue
    _, before, after = run(at)
    check(after in (before, full), "killed at call %d of %d, the record is neither there nor gone: %r" % (at, n, sorted(after)))
'''
