PROPERTY = "C01"
NEEDS = "A motd line that is just as long as the buffer when the start time is substituted in it."
BREAKS = "A byte is written beyond the buffer."
EDITS = [("server/s_motd.c", "size_t remain = sizeof(temp) - 1 - used;", "size_t remain = sizeof(temp) - used;")]
DEMO = '''
s = Server(files={"motd": b"x" * 250 + b"%U\\n"}, binary=asan())
a = s.user("alice", "1"); a.cmd("motd", ""); a.cmd("motd", "")
check(s.alive() and has(a.cmd("v", ""), b""), "the server died: %s" % open(s.dir + "/err").read()[:300])
'''
