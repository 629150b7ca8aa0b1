PROPERTY = "C17"
NEEDS = "Somebody is located who has been idle for exactly an hour."
BREAKS = "The idle time shown has the wrong unit."
EDITS = [("server/s_info.c", """                    (idle < 60) ? "s" :
                    (idle < 3600) ? "m" :""", """                    (idle < 60) ? "s" :
                    (idle <= 3600) ? "m" :""")]
DEMO = '''
s = Server(shim=True)
a = s.user("alice", "1"); b = s.user("bob", "1")
ok = False
for i in range(6):
    while time.time() % 1 > .1:
        time.sleep(.02)
    a.send("h", "g", "2"); time.sleep(.2); s.set(0, 3600 * (i + 1)); b.send("h", "whereis", "alice")
    r = b.get()
    check(not has(r, " 1m"), "%r" % r)
    if has(r, " 1h"):
        ok = True
        break
check(ok, "not seen")
'''
