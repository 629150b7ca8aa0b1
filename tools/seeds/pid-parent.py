PROPERTY = 'C31'
NEEDS = 'The server goes to the background.'
BREAKS = 'The process id file names the process that started it, which is gone.'
EDITS = [('server/main.c', '    long TheTime;\n    int pidf;', '    long TheTime;\n    pid_t self = getpid();\n    int pidf;'),
         ('server/main.c', '(int)getpid()', '(int)self')]
DEMO = r'''
s = Server(fork=True)
s.p.wait(10)
time.sleep(.3)
pid = int(open(s.dir + "/icbd.pid").read())
check(pid != s.p.pid and os.path.exists("/proc/%d" % pid) and os.path.realpath("/proc/%d/exe" % pid) == os.path.realpath(s.bin), "%d is not the server" % pid)
'''
