PROPERTY = "C23"
NEEDS = "The server looks exactly when the time kept for the absent moderator is up."
BREAKS = "Moderation passes on a second early."
EDITS = [("server/ipcf.c", """                (g_tab[i].modtimeout < TheTime))
            {
                newmod = -1;""", """                (g_tab[i].modtimeout <= TheTime))
            {
                newmod = -1;""")]
DEMO = '''
s = Server(shim=True)
T = 1700000000
s.freeze(T)
a = s.user("alice", "gg"); a.cmd("p", "pw"); b = s.user("bob", "gg"); a.cmd("status", "r")
a.s.close()
r = b.get(3)
import re
n = int(re.search(rb"\\((\\d+) second timeout", b" ".join(r)).group(1))
s.freeze(T + n)
r = b.get(1)
check(not has(r, "is now mod"), "%r" % r)
s.freeze(T + n + 1)
r = b.get(1)
check(has(r, "is now mod"), "%r" % r)
'''
