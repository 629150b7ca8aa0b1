PROPERTY = 'C31'
NEEDS = 'A server is started where one ran before, or SIGHUP comes without the log having been moved.'
BREAKS = 'What was in the log is lost.'
EDITS = [('server/icbutil.c', 'O_WRONLY|O_CREAT|O_APPEND', 'O_WRONLY|O_CREAT|O_TRUNC')]
DEMO = r'''
import signal
s = Server(args=["-l3"])
a = s.user("alice", "1")
a.cmd("nosuchthing", "x")
check(b"[LOGIN]" in s.log(), "no login in the log")
s.p.send_signal(signal.SIGHUP)
time.sleep(.5)
check(b"[LOGIN]" in s.log(), "the log was emptied by SIGHUP")
'''
