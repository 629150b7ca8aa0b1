PROPERTY = 'C19'
NEEDS = 'The TLS port is open, and somebody stops in the middle of the handshake.'
BREAKS = 'TLS connections are left blocking, so the handshake of one client holds up everybody.'
EDITS = [('pktserv/pktsocket.c', '''    if (fcntl(ns, F_SETFL, FNDELAY) < 0) {
        vmdb(MSG_WARN, "pktsocket_accept::fcntl(FNDELAY) - %s", strerror(errno));
        return -1;
    }
''', '''    if (listen_cbuf->state == LISTEN_SOCKET && fcntl(ns, F_SETFL, FNDELAY) < 0) {
        vmdb(MSG_WARN, "pktsocket_accept::fcntl(FNDELAY) - %s", strerror(errno));
        return -1;
    }
''')]
DEMO = r'''
s = Server(tls=True)
q = socket.create_connection(("127.0.0.1", s.port + 1), 2)
q.send(b"\x16\x03\x01\x01\x00\x01")
time.sleep(.5)
c = socket.create_connection(("127.0.0.1", s.port), 2)
c.settimeout(6)
try:
    ok = len(c.recv(100)) > 0
except OSError:
    ok = False
check(ok, "a silent client of the TLS port keeps others from being served")
'''
