#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the one place where both are kept)."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
PROPS, CHECKS, NA = [], [], []
MODEL = ("Runs the real, sanitizer-instrumented server under a virtual clock; a monitor (executable reference model of the documented behaviour) judges every packet every "
         "client receives, after each operation or, in trace-following variants, after each read of the real event loop. Holds for the executions run, not for all.")


def P(pid, title, statement, over, text, why, files, mech, technique, note=MODEL, level="exploration", state=None):
    assert len(title) <= 80, (pid, len(title))
    assert pid not in [p["id"] for p in PROPS]
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why, anchors=a))
    CHECKS.append(dict(property=pid, quick_cmd="python3 check.py %s" % pid, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % pid,
                       technique=technique, level=level, level_note=note))


P("C01", "No client byte stream causes memory errors or undefined behaviour",
  "Whatever bytes any number of clients send, before or after logging in, in whatever pieces and order, over plain or TLS connections, the server never reads or writes outside "
  "its objects, uses freed or uninitialised memory, or runs into other undefined behaviour, and it keeps running and serving. The same holds for whatever is in its user "
  "database, motd, news and access files.",
  "inputs histories", "All client byte streams, segmentations and interleavings, and all contents of its data files.",
  "The unit tests call single functions with friendly arguments and the integration tests send well-formed packets; neither runs under a sanitizer and none sends hostile bytes.",
  ["server/", "pktserv/"], [("packet dispatch", "server/dispatch.c"), ("field splitting", "server/ipcf.c"), ("input buffering", "pktserv/pktsocket.c"),
                            ("text handling", "server/strutil.c, server/utf8.c"), ("user database values", "server/icbdb.c, server/access.c")],
  "ASan/UBSan/MSan and FORTIFY builds under grammar-aware fuzzing of the live server",
  "Sanitized builds of the whole server under hostile mutated traffic and damaged data files; red-zone tools miss some intra-object overflows (partly covered by a FORTIFY_SOURCE=3 build).")

P("C02", "Packets are understood the same however the bytes arrive",
  "A client's stream is cut into packets at its length bytes only: however it is split into pieces, however reads are shortened or would block, and whatever is sent to that or "
  "other clients in between, exactly the packets it contains, up to the maximum length, are processed, each once and in order. A packet is acted on as soon as its last byte "
  "arrived (for users the permissions file slows down: at most one per second), and an empty packet ends the connection.",
  "schedules inputs fault_sequences", "All segmentations, short reads, would-block results and interleavings of input with output.",
  "Tests send whole small packets on an idle loopback connection, so the partial-packet states are hardly ever entered.",
  ["pktserv/pktserv.c", "pktserv/pktsocket.c", "pktserv/pktbuffers.c"],
  [("per-connection state machine", "pktserv/pktserv.c"), ("header and body reads", "pktserv/pktsocket.c")],
  "trace-following online reference monitor with injected short reads/writes and EAGAIN")

P("C03", "Everything sent to clients is well-formed and free of injection",
  "Every packet a client receives is correctly framed, within the maximum length, NUL-terminated and of the documented type with the documented fields; text given by other "
  "users never adds fields, packets or format directives to it, and is stripped of control characters as documented. Text too long for one packet is cut, never overflowing "
  "or corrupting what follows.",
  "inputs histories", "All texts, names, topics, stored values and lengths, in all commands that pass them on.",
  "Tests use short plain texts; lengths at the packet limits and special characters in each place are never combined.",
  ["server/send.c", "server/strutil.c", "server/utf8.c", "server/ipcf.c", "server/msgs.c"],
  [("packet construction", "server/send.c"), ("text filtering", "server/strutil.c, server/utf8.c"), ("field splitting", "server/ipcf.c")],
  "online reference monitor over every byte received, hostile texts")

P("C04", "Open messages reach exactly the sender's group",
  "An open message (where the group lets him speak) is delivered once, unaltered and under the sender's name to every user then in the sender's group who is not hushing him, and to nobody else; the sender "
  "gets it only if he asked for echo. Messages of one sender arrive in the order sent, with /exclude leaving out exactly the named user.",
  "histories schedules inputs", "All histories of joins, moves, logins and departures, all group modes, bursts from many clients.",
  "Tests have two or three clients and one message at a time.",
  ["server/msgs.c", "server/send.c", "server/s_group.c"], [("open messages", "server/msgs.c"), ("group fan-out", "server/send.c"), ("exclude", "server/s_group.c")],
  "online reference monitor (exactly-once, ordering, no leak to non-members)")

P("C05", "Private messages reach exactly the named user",
  "A private message is delivered once and unaltered to the user who has that nickname at that moment, whatever the case it is written in, and to nobody else; the sender learns "
  "when there is no such user or he refuses it, and gets an echo exactly as he asked. Renames, departures and reuse of the name are taken into account at once.",
  "histories schedules inputs", "All histories of nick changes, departures and reuse, hush and echo settings, bursts.",
  "Tests send one message between two fixed users.",
  ["server/s_user.c", "server/msgs.c", "server/send.c"], [("message to user", "server/s_user.c"), ("nickname lookup", "server/lookup.c, server/users.c")],
  "online reference monitor (exactly-once delivery to the current holder of a name)")

P("C06", "No two users ever have the same nickname",
  "At no time do two logged-in users have nicknames that are the same apart from case, after the filtering and shortening applied to names, whether taken at login or by "
  "changing it; the name of the server's own user, and the administrator's without his password, are never given out. A name becomes free when its user leaves or renames, and "
  "a refused change leaves the user with the old name.",
  "histories inputs schedules", "All histories of logins, renames and departures, all spellings.",
  "Tests try one duplicate spelled identically.",
  ["server/msgs.c", "server/s_user.c", "server/lookup.c", "server/users.c"],
  [("login", "server/msgs.c"), ("name change", "server/s_user.c"), ("nickname lookup", "server/lookup.c, server/users.c")],
  "online reference monitor with confusable nicknames")

P("C07", "Nobody takes part without an accepted login",
  "Until a connection has completed a login that the access files and name rules allow, nothing it sends has an effect others can see or reveals anything about them beyond the "
  "documented who listing; a refused login gets the reason and is disconnected, leaving no trace. Deny and permission files are applied exactly as documented for every "
  "combination of user and host.",
  "inputs histories configurations", "All packets in all orders before login, all access files and user/host combinations.",
  "Tests log in properly first; access files are not tested against a server.",
  ["server/msgs.c", "server/dispatch.c", "server/access.c", "server/wildmat.c"],
  [("login", "server/msgs.c"), ("packet gate", "server/dispatch.c"), ("access files", "server/access.c"), ("pattern matching", "server/wildmat.c")],
  "online reference monitor with pre-login traffic and generated access files")

P("C08", "Only admitted users get into a group",
  "A user enters a group, by login, change of group, or otherwise, only if it is not restricted, or he is its moderator or holds a matching and not cancelled invitation "
  "(by nickname or address, and registered where that is demanded), and only while its user limit is not reached. A refused user stays where he was; an invitation lasts until "
  "it is cancelled, its holder is booted or the group ends its restriction.",
  "histories inputs", "All histories of invitations, cancellations, renames, restrictions, limits and joins.",
  "Tests try a single restricted group and a single invitation.",
  ["server/s_group.c", "server/groups.c", "server/namelist.c", "server/strlist.c"],
  [("joining", "server/s_group.c"), ("invitations", "server/s_group.c"), ("name lists", "server/namelist.c, server/strlist.c")],
  "online reference monitor with restricted, limited and invited groups")

P("C09", "Only those entitled to speak or to moderate a group can",
  "Only a group's moderator (or the administrator where documented) can change its settings and topic, invite, cancel, boot or pass on moderation, except where the group's mode "
  "gives this to its members; anyone else is refused and nothing changes. In a controlled group only the moderator and those on its talk list are heard, in a quiet group no "
  "arrivals and departures are announced, and changes take effect at once for every later message.",
  "histories inputs", "All group modes, talk lists, moderator changes and orders of commands.",
  "Tests check one refusal per command at most.",
  ["server/s_group.c", "server/msgs.c", "server/s_admin.c"], [("status, boot, pass, topic, talk", "server/s_group.c"), ("open messages to controlled groups", "server/msgs.c")],
  "online reference monitor of moderator authority")

P("C10", "Hidden users and groups are not revealed",
  "A user outside a secret, invisible or supersecret group never learns from listings, locating commands, join attempts, counts or notifications more than that mode allows: its "
  "name, members, topic or existence. Members, invited users and the administrator see it as documented, and its mode takes effect at once.",
  "histories inputs", "All combinations of visibility, membership, invitation and inquiring command.",
  "Tests list one hidden group once.",
  ["server/s_who.c", "server/s_group.c", "server/s_info.c", "server/s_auto.c"],
  [("who listings", "server/s_who.c"), ("whereis", "server/s_info.c, server/s_user.c"), ("joining by user", "server/s_group.c")],
  "online reference monitor of every inquiry's answer")

P("C11", "Groups begin, are moderated and end as documented",
  "A group exists exactly while it has members or is waiting for its moderator to return; whoever founds it moderates it, and moderation passes, is kept for a departed moderator, is "
  "regained by him and lapses as documented for the group's mode. A new group of the same name starts afresh with nothing of the old one's settings, topic or invitations.",
  "histories schedules", "All orders of join, leave, hang-up, boot, drop, rename, pass and expiry.",
  "Tests have one group with two members.",
  ["server/groups.c", "server/s_group.c", "server/msgs.c", "server/s_auto.c"],
  [("leaving and succession", "server/s_group.c, server/msgs.c"), ("group table", "server/groups.c"), ("moderator timeout", "server/s_auto.c")],
  "online reference monitor of group state through listings and announcements, virtual clock")

P("C12", "Only the administrator can administer",
  "Announcing to all, dropping users without their password, changing the log, resetting statistics, shutting down or restarting has an effect only for a user who got the "
  "administrator's name with its password; everyone else is refused, whatever he is called or claims, and nothing changes. The administrator's own commands affect exactly "
  "the named users.",
  "histories inputs", "All users, names, passwords, renames and orders of commands.",
  "Tests check one refusal for one command.",
  ["server/s_admin.c", "server/access.c", "server/s_user.c", "server/msgs.c"], [("administrator check", "server/s_admin.c, server/access.c"), ("login as administrator", "server/msgs.c")],
  "online reference monitor of privileged commands")

P("C13", "A registered nickname belongs to whoever knows its password",
  "A user counts as registered only after giving the password stored for his nickname (or coming from the address recorded for it, unless it demands the password); without that he cannot "
  "change or delete the registration, alter its data, read its messages or drop its user. A new password replaces the old one at once, and changing or losing the nickname loses the "
  "registered status.",
  "histories inputs", "All histories of register, rename, password change, delete, re-login from any address.",
  "Tests register and log in once.",
  ["server/access.c", "server/s_user.c", "server/icbdb.c"], [("registration", "server/access.c"), ("user commands", "server/s_user.c"), ("database", "server/icbdb.c")],
  "online reference monitor of registration state")

P("C14", "Stored messages are delivered once, intact and only to their owner",
  "A message left for a registered nickname is kept, with its sender and time, until its registered owner reads it, then shown once, complete and in order, and is gone; leaving more than "
  "the mailbox holds, or leaving one for an unregistered name, is refused and reported. The owner is told about waiting messages when he proves who he is.",
  "histories inputs", "All orders of write, read, login, rename, deletion; all texts and lengths.",
  "Tests store and read one message.",
  ["server/access.c", "server/icbdb.c", "server/s_person.c"], [("write and read", "server/access.c"), ("database", "server/icbdb.c")],
  "online reference monitor of mailboxes (exactly-once, FIFO, bounded)")

P("C15", "The user database survives crashes and faults",
  "Once the command that changes a registration or mailbox has been carried out, the change survives the server being killed at any later moment. A kill or an I/O error at any point of a change leaves "
  "the database readable, with every other record intact and the changed one either as before or as after. After an I/O error the server goes on running and serving. No other account can read the file.",
  "crash_points fault_sequences histories", "Every system call of every database change as crash point or failing call, over random histories.",
  "Tests never kill the server and never make a write, sync or rename fail.",
  ["server/icb_dbm.c", "server/icbdb.c", "server/access.c"], [("write to a temporary file, sync, rename", "server/icb_dbm.c"), ("database changes", "server/icbdb.c")],
  "fault enumeration at every database system call, restart and compare with the reference model",
  "Every database system call of the sampled changes is used once as crash point and once as failing call; power loss is represented by the order of write, sync and rename calls, not by losing pages.",
  level="fault_enumeration")

P("C16", "The database engine is an exact map, whatever is in the file",
  "Storing, replacing, deleting, fetching and traversing behave like a map from byte strings to byte strings for any keys and values within the limits, across closing and reopening, with every "
  "key visited exactly once; refused operations change nothing. A truncated, damaged or foreign file is refused or read safely, never causing memory errors or hangs.",
  "inputs histories", "All sequences of operations, all keys and values, all file contents.",
  "Unit tests store a handful of keys; no damaged file is opened.",
  ["server/icb_dbm.c", "server/dbm.h"], [("hash table and file format", "server/icb_dbm.c")],
  "sanitized harness against an in-memory map; mutated and truncated files",
  "Random operation sequences and systematically damaged files under ASan/UBSan/LSan; bounds stated in the evidence.")

P("C17", "Listings tell the truth",
  "Who listings, whereis, user and group counts and the statistics show exactly the users, groups, moderators, topics, modes, idle and login times there are at that moment, each once, in the "
  "documented order and layout, to those allowed to see them.",
  "histories inputs", "All populations and histories, up to many users and groups.",
  "Tests look for a name in one listing.",
  ["server/s_who.c", "server/s_info.c", "server/s_stats.c", "server/s_user.c"], [("who listings", "server/s_who.c"), ("whereis", "server/s_user.c"), ("statistics", "server/s_stats.c")],
  "online reference monitor of complete listings, virtual clock")

P("C18", "A departed user leaves nothing behind",
  "When a connection ends, however and at whatever moment, its user is gone from every listing and group, the others are told as documented, and its connection and memory are released; "
  "a later user, on the same connection slot or with the same name, inherits none of its settings, lists, permissions, statistics, pending pings or away notices.",
  "histories schedules", "All ways and moments of ending, all settings made before, any number of reuses.",
  "Tests connect few clients and never reuse a slot after setting anything.",
  ["server/msgs.c", "server/users.c", "pktserv/pktserv.c", "pktserv/pktbuffers.c"],
  [("lost connection", "server/msgs.c"), ("user table", "server/users.c"), ("disconnect", "pktserv/pktserv.c")],
  "online reference monitor with slot reuse; descriptor and leak (LSan) conservation after everyone left")

P("C19", "No client can keep others from being served",
  "Incomplete packets, clients that never read, floods, resets, mass connects up to and beyond the capacity and unfinished TLS handshakes never stop the server from promptly serving the other "
  "clients, and with nothing to do it sleeps instead of spinning. Connections beyond the capacity are refused, and one that is refused, dropped or closed frees its place.",
  "schedules histories fault_sequences", "All mixes of well- and ill-behaved clients and connection counts.",
  "Tests have only well-behaved clients, few at a time.",
  ["pktserv/pktserv.c", "pktserv/pktsocket.c", "server/msgs.c"], [("event loop", "pktserv/pktserv.c"), ("non-blocking I/O", "pktserv/pktsocket.c"), ("flood limit", "server/dispatch.c, server/msgs.c")],
  "bounded-progress monitor on event-loop turns with misbehaving clients",
  "Progress is judged in turns of the event loop and by an answered barrier, not wall-clock time; the watchdog alone is wall-clock and its firing is re-run before it counts.")

P("C20", "TLS connections behave exactly like plain ones",
  "A client on the TLS port gets the same service as on the plain one, whatever the TLS record boundaries: every packet sent is processed once and in order as soon as it is complete, every "
  "packet due is received intact, and disconnects are noticed. Users are shown as connected securely exactly if they are.",
  "schedules inputs configurations", "All record boundaries, pieces, bursts and mixes of TLS and plain clients.",
  "One test does a login over TLS with one packet per record.",
  ["pktserv/sslsocket.c", "pktserv/pktserv.c", "pktserv/pktsocket.c"], [("TLS reads and writes", "pktserv/sslsocket.c"), ("state machine", "pktserv/pktserv.c")],
  "trace-following online reference monitor with TLS clients")

P("C21", "Hush and notify lists do exactly what was asked",
  "Messages from users matching a hush entry, by nickname or address pattern and of the kind hushed, are withheld from exactly the users who asked for it, and the sender of a private one is told; every "
  "other message passes. Users on a notify list are announced exactly when they arrive and leave, to those who asked; entries are added, removed and listed as documented.",
  "histories inputs", "All lists, patterns, renames and arrivals.",
  "Tests hush one name once.",
  ["server/s_auto.c", "server/s_group.c", "server/strlist.c", "server/namelist.c", "server/wildmat.c"],
  [("hush and notify", "server/s_group.c, server/s_user.c"), ("pattern matching", "server/wildmat.c"), ("lists", "server/strlist.c, server/namelist.c")],
  "online reference monitor of hush and notify")

P("C22", "Ping, beep, echo and away act as set, for the right users",
  "A ping is answered to the one who asked with the time it took, a beep reaches its target unless he refuses it, and echo follows each user's own setting. An away message is sent to those who "
  "write privately to the absent user, at most as often as documented, with exactly the documented substitution, and ends when he says so.",
  "histories schedules", "All settings, orders and delays, several users at once.",
  "Tests exercise each once between two users.",
  ["server/s_user.c", "server/s_beep.c", "server/msgs.c", "server/send.c"], [("ping and pong", "server/s_user.c, server/msgs.c"), ("beep", "server/s_beep.c"), ("away", "server/s_user.c, server/msgs.c")],
  "online reference monitor, virtual clock")

P("C23", "Time limits act when due and only then",
  "Idle members are moved out, idle moderators lose moderation, a departed moderator's claim lapses, floods are punished, and an announced shutdown is notified and carried out at "
  "the set time, neither earlier nor later, counting from the right moment; nothing of it happens to those who acted in time or to groups that did not ask for it.",
  "histories schedules", "All limits and all timings around every deadline.",
  "Tests cannot wait; time-dependent behaviour is untested.",
  ["server/s_auto.c", "server/msgs.c", "server/s_admin.c", "server/s_shuttime.c"], [("periodic work", "server/s_auto.c"), ("flood limit", "server/msgs.c"), ("shutdown", "server/s_admin.c")],
  "online reference monitor with a virtual clock stepped around each deadline")

P("C25", "A host name counts only if it leads back to the address",
  "A client is known to the server and shown to others by the host name of its address only if one of the addresses of that name is its own; otherwise, or while the name service gives no answer, "
  "by the address. This is so for IPv4 clients, for IPv4 clients of a server that listens for both, and for IPv6 clients. Whatever names somebody gives his addresses, he is not taken for another host: not in listings and the log, not by the access and permission files, not by invitations "
  "or hush lists for an address, and not for registration without a password.",
  "configurations histories", "All answers of the name service, honest and not, for names and addresses, and all histories of users at those addresses.",
  "Tests connect from localhost only, whose name always resolves.",
  ["pktserv/getrname.c", "server/send.c", "server/access.c", "server/msgs.c"],
  [("double reverse lookup", "pktserv/getrname.c"), ("host of a new client", "server/send.c"), ("registration by address", "server/access.c"), ("access files", "server/msgs.c")],
  "online reference monitor with a generated, partly dishonest name service at the resolver calls")

P("C26", "Slow readers get whole packets, in order, or are disconnected",
  "What a client receives is always a sequence of whole packets, each as sent to it, at most once and in the order sent: when it reads slowly, up to the queue's size of packets wait, and sending continues "
  "exactly where it stopped. Only when the queue is full are further packets left out, always whole, or the client is disconnected; a client that keeps up misses nothing. Bytes are never lost, repeated or mixed up within the stream.",
  "schedules fault_sequences", "All reading speeds, buffer sizes, short and blocked writes, plain and TLS.",
  "Tests read everything at once; no write is ever partial.",
  ["pktserv/pktserv.c", "pktserv/pktsocket.c", "pktserv/sslsocket.c"], [("write queue", "pktserv/pktsocket.c"), ("packet sending", "pktserv/pktserv.c")],
  "numbered-message stream monitor with stalled readers and injected partial writes",
  "Judges the byte stream of stalled readers against the numbered messages sent; buffer sizes and stall patterns are sampled.")

P("C24", "Text and list utilities meet their specification on every input",
  "The functions that filter names and text, split lines, convert and compare strings, match address patterns, measure UTF-8 and keep name lists give the specified result for every "
  "input and buffer size, never touching memory beyond the sizes given.",
  "inputs", "All strings, including all short ones over a small alphabet, and all buffer sizes.",
  "Unit tests check a few examples of each.",
  ["server/strutil.c", "server/utf8.c", "server/wildmat.c", "server/strlist.c", "server/namelist.c", "server/ipcf.c"],
  [("string helpers", "server/strutil.c"), ("UTF-8", "server/utf8.c"), ("patterns", "server/wildmat.c"), ("lists", "server/strlist.c, server/namelist.c")],
  "sanitized harness against independent reference implementations, short inputs exhaustively",
  "Exhaustive over short strings of a chosen alphabet and random beyond; exact-size heap buffers under ASan.")

P("C27", "Bricks are conserved",
  "Where the brick option is built in, every user starts with the configured number of bricks; each throw costs the thrower one, a hit adds one to the target's supply up to the maximum and misses "
  "lose it, so bricks never appear from nowhere. A user without bricks cannot throw and is dropped if he keeps trying, and what is announced is the throw that happened, to the right group.",
  "histories schedules", "All orders of throws, arrivals, departures and renames.",
  "Tests do not build the option.",
  ["server/s_group.c", "server/s_user.c"], [("brick", "server/s_commands.h")],
  "online reference monitor plus conservation of bricks")

P("C28", "Information given out is what is configured and recorded",
  "The message of the day, news, help, version, whois data and statistics shown to a user are exactly what the files, the registration and the counts so far contain, complete, in order and with "
  "the documented substitutions; missing or odd files lead to the documented answer, and no other file can be read.",
  "inputs configurations", "All file contents and names asked for, all histories of counted events.",
  "Tests check that something is returned.",
  ["server/s_motd.c", "server/s_news.c", "server/s_info.c", "server/s_stats.c", "server/s_version.c", "server/access.c"],
  [("motd", "server/s_motd.c"), ("news", "server/s_news.c"), ("whois", "server/access.c"), ("statistics", "server/s_stats.c")],
  "online reference monitor with generated files")

P("C29", "The database tools and the server agree on the user database",
  "The offline tools list, find, count and export exactly what the database file holds. Setting a value, deleting nicknames, pruning old ones, importing and creating the database change exactly the entries "
  "they name and keep all others byte for byte; export followed by import, and migration from an old database, give the same database. A damaged file is refused and left as it was, a tool that fails or is "
  "ended at any point leaves the database as it was before or as it is after, never between, and never claims success otherwise. The server uses what the tools wrote.",
  "inputs fault_sequences histories", "All databases and values, all sequences of tool calls, all points of failure.",
  "The tools have only a few tests on small ASCII databases.",
  ["support/icbdb.py", "support/deldb.py", "support/nickprune.py", "support/setdb.py", "support/dbm2icbdb.py", "server/icbdb.c"],
  [("file format", "support/icbdb.py"), ("deleting", "support/deldb.py"), ("pruning", "support/nickprune.py"), ("migration", "support/dbm2icbdb.py")],
  "differential runs of the real tools against a map, with calls failing or the tool ended at each of them (LD_PRELOAD shim), and the sanitized server started on the result",
  "Samples databases, call sequences and fault points; tools run while the server does not.")

P("C30", "The log tells what users did, and only that",
  "At log level N the log receives the messages of levels up to N and no others, a change of the level counting at once. Every connection, login attempt that got as far as the access rules (who and from "
  "where), refusal, who query, open message, unknown command, drop, kill, idle boot, loss of a connection and use of an administrator command gets its one line, with the right user, descriptor and host; "
  "every line is complete and carries its level, the time and the server's name. Nothing a client sends makes a line more or less, or changes another; passwords of logins and of logged-in users are in "
  "none below the debug level.",
  "histories inputs", "All histories of connections, logins and commands, all texts in them, all log levels and changes.",
  "No test looks at the log.",
  ["server/mdb.c", "server/msgs.c", "server/ipcf.c", "server/send.c", "server/s_admin.c", "server/access.c"],
  [("writing a line", "server/mdb.c"), ("connections and losses", "server/send.c, server/ipcf.c"), ("logins and commands", "server/msgs.c"), ("level", "server/s_admin.c")],
  "online reference monitor of the log: after each step its new lines are compared with those the model gives")

P("C31", "Starting, signals and stopping behave as documented",
  "The server listens exactly where its options say (host, port, TLS port; the documented defaults; TLS only when asked for), in the background unless told otherwise, records its process id, hides its "
  "arguments when asked to, and appends to its log. If an option is unknown, a port or host is not to be had, or the certificate file is unusable, it ends with an error instead, leaving the process id file "
  "alone. SIGHUP, at any moment and however often, makes it continue in a new log file: no line is lost, doubled or reordered, and no client notices. SIGTERM and SIGINT, at any moment, end it promptly with "
  "success and a closing line in the log; SIGPIPE does nothing.",
  "configurations schedules", "All option combinations and certificate files, all moments at which signals arrive.",
  "The tests start it one way, and send signals only when it has nothing to do.",
  ["server/main.c", "server/icbutil.c", "pktserv/pktserv.c", "pktserv/sslconf.c", "server/unix.c"],
  [("options and start", "server/main.c"), ("signal handling", "server/icbutil.c, server/ipcf.c"), ("listening", "pktserv/pktserv.c"), ("certificates", "pktserv/sslconf.c")],
  "real processes under signal storms and random options, monitored from outside; rotated logs checked exactly-once",
  "Options and files are sampled; signals hit at random moments of real time, so interleavings are sampled too.")


EXTRA = V / "tools" / "extra_props.py"
if EXTRA.exists():
    exec(EXTRA.read_text())

if __name__ == "__main__":
    import sys
    sys.path.insert(0, str(V / "lib"))
    import profiles
    built = {p for p in profiles.P} | {f.stem for f in (V / "checks").glob("C*.py")}
    PROPS.sort(key=lambda p: p["id"])
    CHECKS.sort(key=lambda p: p["property"])
    (V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in PROPS))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[c for c in CHECKS if c["property"] in built],
             not_applicable=NA + [dict(property=c["property"], reason="The check is still being built.") for c in CHECKS if c["property"] not in built],
             notes="No hooks in /repo: instrumentation is linked in from /verif/shim (ld --wrap). The fix: commits in /repo are listed in known-findings.txt.")
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    print(len(PROPS), "properties,", len(m["checks"]), "checks")
