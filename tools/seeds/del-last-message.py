PROPERTY = 'C29'
NEEDS = 'A nickname with stored messages is deleted with the offline tool.'
BREAKS = 'Its last message stays in the database, and whoever registers the nickname next and gets as many messages may see it.'
EDITS = [('support/deldb.py', 'for i in range(1, num + 1):', 'for i in range(1, num):')]
DEMO = r'''
db = {"bob.nick": "bob", "bob.password": "x", "bob.nummsg": "2", "al.nick": "al"}
for k in "12":
    db.update({"bob.header" + k: "h", "bob.from" + k: "al", "bob.message" + k: "hello"})
d = tempfile.mkdtemp(prefix="icbdemo.")
atexit.register(shutil.rmtree, d, True)
open(d + "/icbdb.db", "wb").write(b"IDB\1" + struct.pack("<I", len(db)) + b"".join(struct.pack("<II", len(k), len(v)) + k.encode() + v.encode() for k, v in db.items()))
subprocess.run([sys.executable, CWD + "/support/deldb.py", "-q", "-d", d + "/icbdb", "bob"], check=True)
out = subprocess.run([sys.executable, CWD + "/support/catdb.py", d + "/icbdb"], check=True, stdout=subprocess.PIPE, text=True).stdout
check("al.nick" in out, "too much is gone: " + out)
check("bob." not in out, "something is left: " + out)
'''
