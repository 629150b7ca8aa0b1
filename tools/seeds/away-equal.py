PROPERTY = 'C22'
NEEDS = 'The same user writes again to one who is away exactly as many seconds after the last away message as the documented interval.'
BREAKS = 'The away message is repeated too early.'
EDITS = [('server/s_person.c', '''(time(NULL) - u_tab[dest].lastawaytime > AWAY_NOSEND_TIME))''', '''(time(NULL) - u_tab[dest].lastawaytime >= AWAY_NOSEND_TIME))''')]
DEMO = '''
import re
n = int(re.search(r"AWAY_NOSEND_TIME\\s+\\(?(\\d+)", open("server/server.h").read() + open("icb_config.h").read()).group(1))
s = Server(shim=True)
a = s.user("alice", "1"); b = s.user("bob", "1"); b.cmd("away", "%s gone")
# both within the same second of the clock
while time.time() % 1 > .1:
    time.sleep(.02)
a.send("h", "m", "bob one"); time.sleep(.3); s.set(0, n); a.send("h", "m", "bob two")
r = a.get()
check(sum(b"gone" in x for x in r) == 1, "away message repeated: %r" % r)
'''
