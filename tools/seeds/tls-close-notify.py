PROPERTY = "C20"
NEEDS = "A TLS client ends its session properly."
BREAKS = "The server does not notice that the user left."
EDITS = [("pktserv/sslsocket.c", """        case SSL_ERROR_ZERO_RETURN:
            cbuf->state = WANT_DISCONNECT;
            vmdb(MSG_ERR, 
                 "sslsocket_read: fd%d: SSL conn marked closed", cbuf->fd);
            break;""", """        case SSL_ERROR_ZERO_RETURN:
            cbuf->state = WANT_SSL_READ;
            vmdb(MSG_ERR, 
                 "sslsocket_read: fd%d: SSL conn marked closed", cbuf->fd);
            return 0;""")]
DEMO = '''
s = Server(tls=True)
a = s.user("alice", "1"); b = s.user("bob", "1", tls=True); a.get()
try:
    b.s.unwrap()
except OSError:
    pass
b.close()
r = a.get(1)
check(has(r, "signed off"), "%r" % r)
'''
