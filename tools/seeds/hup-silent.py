PROPERTY = 'C31'
NEEDS = 'The server runs with logging off (the default) and is told to rotate its log by SIGHUP.'
BREAKS = 'From then on it does not log even what is always logged, such as its end or changes of the log level.'
EDITS = [('server/icbutil.c', '    icbcloselogs(sig);\n    icbopenlogs(sig);', '    icbcloselogs(sig);\n    if (log_level > 0)\n        icbopenlogs(sig);')]
DEMO = r'''
import signal
s = Server()
a = s.user("alice", "1")
os.rename(s.dir + "/icbd.log", s.dir + "/icbd.log.1")
s.p.send_signal(signal.SIGHUP)
time.sleep(.5)
s.p.send_signal(signal.SIGTERM)
s.p.wait(20)
check(b"told us to exit" in s.log(), "no word of its end in the new log: %r" % s.log())
'''
