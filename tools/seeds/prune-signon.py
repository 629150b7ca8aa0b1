PROPERTY = 'C29'
NEEDS = 'Somebody who signed on long ago signed off only recently (a connection that lasted), and old nicknames are pruned.'
BREAKS = 'The age is counted from the last signon although the signoff is known, so nicknames in use are deleted.'
EDITS = [('support/nickprune.py', '''            # Try signoff first, then signon
            so_key = f"{rootkey}.signoff"
            datestr = db.get(so_key, "")
            if not datestr:
                so_key = f"{rootkey}.signon"
                datestr = db.get(so_key, "")
''', '''            # Try signon first, then signoff
            so_key = f"{rootkey}.signon"
            datestr = db.get(so_key, "")
            if not datestr:
                so_key = f"{rootkey}.signoff"
                datestr = db.get(so_key, "")
''')]
DEMO = r'''
def day(k):
    return time.strftime("%d-%b-%Y 10:00 UTC", time.gmtime(time.time() - 86400 * k))
os.environ["LC_ALL"] = "C"
db = {"bob.nick": "bob", "bob.password": "x", "bob.signon": day(500), "bob.signoff": day(2), "al.nick": "al", "al.signon": day(600), "al.signoff": day(599)}
d = tempfile.mkdtemp(prefix="icbdemo.")
atexit.register(shutil.rmtree, d, True)
open(d + "/icbdb.db", "wb").write(b"IDB\1" + struct.pack("<I", len(db)) + b"".join(struct.pack("<II", len(k), len(v)) + k.encode() + v.encode() for k, v in db.items()))
subprocess.run([sys.executable, CWD + "/support/nickprune.py", "-y", "-q", "--database", d + "/icbdb"], check=True)
out = subprocess.run([sys.executable, CWD + "/support/catdb.py", d + "/icbdb"], check=True, stdout=subprocess.PIPE, text=True).stdout
check("bob.nick" in out, "a nickname in use was deleted")
check("al.nick" not in out, "an old nickname was not")
'''
