PROPERTY = "C18"
NEEDS = "A user pings another and leaves; a third gets his place; then the pinged client answers."
BREAKS = "The newcomer gets the answer to a ping he never sent."
EDITS = [("server/users.c", """        if ( pong_req[i] == n )
        {
            pong_req[i] = -1;""", """        if ( pong_req[i] == n && u_tab[i].login == LOGIN_FALSE )
        {
            pong_req[i] = -1;""")]
DEMO = '''
s = Server()
b = s.user("bob", "1"); a = s.user("alice", "1")
a.cmd("ping", "bob"); a.close()
c = s.user("carol", "2"); c.get()
b.send("m", "x"); b.get()
got = c.get()
check(not has(got, "responded"), "%r" % got)
'''
