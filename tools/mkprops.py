#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))

p("C01","A client's byte stream is parsed into exactly the packets it sent",
 "However the network splits, joins or delays a client's bytes, and whatever the server sends to that client meanwhile, the server acts on exactly the packets the client sent: each once, in order, complete and unaltered, never a fragment, a merge of two, or another client's bytes. A packet announcing a length the protocol does not allow (zero, or more than fits the packet buffer) ends that connection instead of being interpreted. A packet that has fully arrived is acted on within a bounded number of event-loop turns without waiting for further input.",
 ["schedules","inputs","fault_sequences"],
 "every segmentation and coalescing of every client stream, every interleaving of arrivals with outgoing traffic to the same client and with other clients' activity, every would-block or interrupted call",
 "The tests send whole packets over loopback one at a time; none splits a packet while the server is sending to the same client, which is where framing state can be lost.",
 ["pktserv/pktserv.c","pktserv/pktsocket.c","pktserv/pktbuffers.c"],
 [("per-connection read buffer and header/body states","pktserv/pktsocket.c:pktsocket_read"),("state machine that returns to reading after a write","pktserv/pktserv.c:pollfd_state_machine")],
 [("rbuf","partially read packet of one connection","pktserv/pktbuffers.h:cbuf_t")],
 ["packets handed to the server's dispatch callback versus packets put on the simulated wire"])

p("C02","TLS sessions are served exactly like plaintext ones",
 "A client on the TLS port gets the same service as one on the plaintext port: every packet it sends is acted on exactly once, in order and without needing further bytes to arrive, however packets are packed into or split across TLS records and TCP segments, and every packet sent to it is decryptable, complete and in order. A failed or garbage handshake, or a TLS error on one connection, closes only that connection and never affects another client. A connection whose handshake has not completed is never treated as a client, and a handshake that is the server's turn to continue goes on; protocols older than TLS 1.2 are refused.",
 ["schedules","inputs","fault_sequences"],
 "every packing of packets into records, every segmentation of the ciphertext, every would-block during handshake, read and write, every broken handshake interleaved with healthy sessions",
 "The integration tests make one TLS connection that sends one packet per record over loopback; no test packs two packets in one record, splits one packet over several, or interleaves a failing handshake with other sessions.",
 ["pktserv/sslsocket.c","pktserv/pktserv.c","pktserv/pktsocket.c"],
 [("SSL retry states","pktserv/sslsocket.c:sslsocket_read"),("state machine","pktserv/pktserv.c:pollfd_state_machine")],
 [("ssl_con","TLS state of one connection","pktserv/pktbuffers.h:cbuf_t")],
 ["plaintext recovered by a real TLS client; dispatch callback"])

p("C03","Outgoing packets arrive whole, in order, and are lost only by overflow",
 "Every byte stream a client receives is a sequence of complete, well-formed packets, each no longer than the protocol maximum and terminated as the protocol requires, in the order in which they were issued; no packet is torn, duplicated, reordered, or mixed with another connection's. When a client reads slowly the server queues packets and may discard whole newer packets only once its outgoing queue for that client (ten packets) is full, and it never holds more than those ten for a client that does not read; queued packets go out when the client reads again. A client that keeps reading loses nothing.",
 ["schedules","fault_sequences","histories"],
 "every pattern of short writes, would-block results, slow and resumed readers, and bursts of traffic",
 "Loopback sockets with fast readers never produce a short write, so no test exercises the queue, the resumption of a partly written packet, or overflow.",
 ["pktserv/pktserv.c","pktserv/pktsocket.c","server/send.c"],
 [("write queue","pktserv/pktserv.c:pktserv_send"),("resumption of partial writes","pktserv/pktsocket.c:pktsocket_write"),("packet construction and length byte","server/send.c:doSend")],
 [("wlist","queued outgoing packets of one connection","pktserv/pktbuffers.h:cbuf_t")],
 ["bytes passed to write()/SSL_write() and bytes read by the simulated client"])

p("C04","No input or network fault crashes, hangs or corrupts the server",
 "Whatever bytes any number of clients send, in any order and at any point of their sessions, and whatever faults the network, the resolver and the clock produce, the server process keeps running: it does not terminate, loop without returning to its event loop, read or write outside its objects, use freed memory, or execute undefined behaviour. After such input, other clients are still served correctly.",
 ["inputs","schedules","fault_sequences","histories"],
 "every sequence of well-formed and malformed packets (any type byte, any bytes, any length up to the maximum, any number of fields) from any interleaving of clients before, during and after login, with connection resets, short I/O and clock jumps",
 "The unit tests feed helper functions a few strings and the integration tests a few well-formed sessions, without memory checking; the bad cases need particular lengths, field counts, or a stale parse left by another client.",
 ["server/msgs.c","server/strutil.c","server/send.c","server/s_group.c","server/s_user.c","server/access.c","server/dispatch.c","server/ipcf.c"],
 [("field splitting and text filtering with bounded buffers","server/msgs.c:split, server/strutil.c:filtertext, getword"),("argument checks of each command","server/s_*.c")],
 [("fields","pointers into the packet being parsed","server/msgs.c")],
 ["AddressSanitizer/UBSan report, wrapped exit(), event-loop progress watchdog"])

p("C05","One slow, stalled or broken client never denies service to the others",
 "While any subset of clients is stalled, reads nothing, sends partial packets, resets, half-closes, fails its handshake or floods, each other client's packets are acted on within a bounded number of event-loop turns and new connections are accepted. A connection that is closed, reset or ended by the server is disposed of once: its descriptor is closed exactly once within a bounded number of turns, its slot becomes reusable, and the event loop does not spin on it. The server ends a connection only for a cause: the peer closed or broke it, it violated the protocol, it stopped reading while output was queued, or a documented rule removed the user.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of stalls, resets, closes, accept and resolver failures with traffic of healthy clients",
 "Tests never reset a connection, fill a send buffer or make accept fail, and run too few connections to notice a leaked descriptor or a busy loop.",
 ["pktserv/pktserv.c","pktserv/pktsocket.c"],
 [("poll loop and pollfd set","pktserv/pktserv.c:pktserv_run, handle_pollfds, delete_pollfd"),("disconnect states","pktserv/pktserv.c:handle_disconnect, handle_raw_disconnect")],
 [("g_pollset","descriptors being watched","pktserv/pktserv.c")],
 ["simulated descriptor table, poll() calls, dispatch latency in event-loop turns"])

p("C06","An open message reaches exactly the members of the sender's group, once",
 "An accepted public message is delivered exactly once, with the sender's current nickname and the sender's text, to every user who is logged in and in the sender's group at that moment, except recipients who have hushed that sender and except the sender, who gets a copy only when echo is on; nobody outside the group receives it, and all members see messages in one order. If the sender is not logged in, is alone, or may not speak there (a quiet group, or a controlled group where the sender is neither moderator nor given permission), nobody receives it and the sender gets an error. Text longer than a packet can carry is never silently mixed with other text.",
 ["histories","schedules","inputs"],
 "every history of logins, group changes, hushes, status changes, disconnects and messages by any number of users",
 "The integration tests use two or three users in one group and a handful of messages; they never combine membership changes, hushing, controlled groups and disconnects around a message.",
 ["server/msgs.c","server/send.c","server/s_group.c","server/groups.c"],
 [("member enumeration and hush filter","server/msgs.c:openmsg"),("packet construction","server/send.c:sendopen")],
 [("u_tab[].group","group of each user","server/server.h"),("pub_n_hushed/pub_s_hushed","who a user hushes","server/server.h")],
 ["frames received by every simulated client after each public message"])

p("C07","A private message or beep reaches its one addressee or is reported as failed",
 "A private message to a logged-in nickname (matched without regard to case) is delivered exactly once, to that user only, with the sender's real nickname and text, wherever the two users are; a beep likewise unless the addressee refuses beeps, in which case the sender gets an error and the addressee is only told if asked to be. If the addressee has hushed the sender the message is not delivered and the sender is told it bounced; if there is no such user the sender gets an error and nobody receives anything. The sender gets an echo of a private message only if verbose echo is on, and nobody else ever sees it.",
 ["histories","schedules","inputs"],
 "every history of logins, renames, hushes, beep settings, away settings, disconnects and messages",
 "Tests cover one delivery and one unknown user; they do not combine renames, hush lists, beep refusal, disconnect races and echo settings.",
 ["server/s_person.c","server/s_beep.c","server/send.c","server/msgs.c"],
 [("lookup by nickname and delivery","server/s_person.c:s_personal, server/send.c:sendperson"),("beep","server/s_beep.c, server/send.c:sendbeep")],
 [("pri_n_hushed/pri_s_hushed","private hush lists","server/server.h")],
 ["frames received by every simulated client after each private message or beep"])

p("C08","Nicknames are unique, valid, and name the true sender",
 "At no time do two logged-in users have nicknames that are equal ignoring case, nor does any user hold the server's own nickname; the login or rename that would create such a clash is refused and changes nothing. Every nickname shown is non-empty, at most the maximum length and made only of permitted characters. Every message, beep, announcement and listing names the user who really caused it by the nickname held at that time, and a successful rename is announced once to the user and the members of the group.",
 ["histories","inputs","schedules"],
 "every history of logins, renames and disconnects with arbitrary requested nicknames",
 "Tests try one duplicate login; they do not try names that only collide after cleaning or truncation, nor renames interleaved with failed logins and disconnects.",
 ["server/access.c","server/msgs.c","server/s_user.c","server/strutil.c","server/users.c"],
 [("clash check at login and rename","server/msgs.c:loginmsg, server/s_user.c:s_name"),("nickname cleaning","server/strutil.c:filternickname")],
 [("u_tab[].nickname","current nicknames","server/server.h")],
 ["replies to login and name, sender fields of delivered frames, who listings"])

p("C09","Group membership, announcements and listings agree",
 "Every logged-in user is in exactly one group; a successful move takes effect at once, tells the mover, announces the departure once to the members left behind and the arrival once to the members already there (unless that group is quiet), and sends these to nobody else; a refused move changes nothing. A group exists exactly while it has members, keeps its name, topic and settings while it exists, and a name used again after its group emptied starts with fresh default settings. Listings requested by a user show each listed group's current name, topic, settings, moderator and exactly its current members.",
 ["histories","schedules","inputs"],
 "every history of logins, group changes, status and topic changes, boots and disconnects",
 "Tests make a few group changes with two users; they do not check who was not told, nor group life cycles across disconnects, nor listings against history.",
 ["server/s_group.c","server/groups.c","server/users.c","server/s_who.c"],
 [("group change","server/s_group.c:s_change"),("group table life cycle","server/groups.c"),("listing","server/s_who.c")],
 [("g_tab","group table","server/globals.c"),("u_tab[].group","membership","server/server.h")],
 ["status frames received by each client and who-listing output"])

p("C10","Moderation rights: one valid moderator, lawful succession, no usurping",
 "Creating a group makes the creator its moderator; at any time a moderated group's moderator, if any, is one logged-in user, and the right moves only by passing it, by idle time-out, by boot of an idle moderator, or by loss of the moderator (an unregistered one is replaced at once by the least idle member; a registered one's group waits five minutes, during which he regains the right on returning authenticated, and then the least idle member who is not away takes over). Only the moderator may boot, pass, change status, set the topic of a moderated group, or manage invitations and talk permission; anyone else's attempt is refused with an error and changes nothing. Each transfer is announced to the group.",
 ["histories","schedules","fault_sequences"],
 "every history of group creation, passing, moves, disconnects, reconnects, registration and passage of time",
 "No test covers succession at all; it depends on order of disconnects, who is idle or away, registration, and elapsed time.",
 ["server/s_group.c","server/ipcf.c","server/access.c","server/groups.c"],
 [("moderator checks in each command","server/s_group.c"),("succession","server/ipcf.c:s_lost_user, s_didpoll"),("regaining after return","server/access.c")],
 [("g_tab[].mod, missingmod, modtimeout","moderator state","server/server.h")],
 ["Pass/Mod/Timeout/Sign-off status frames, replies to moderator commands, listings"])

p("C11","Groups are entered only by those entitled, and full groups stay capped",
 "A user enters a restricted group only as its moderator, by a valid invitation (by nickname or address, and for invitations that demand it only when registered), or when the server itself moves him; an entered invitation stays valid until cancelled. A group whose moderator set a size limit admits no further ordinary user once it has that many members. Everyone else is refused with an error and stays where he was, and joining a user by name is subject to the same rules.",
 ["histories","inputs"],
 "every history of status changes, invitations, cancellations, moves, renames and registrations",
 "Tests check one refused and one invited entry; the rules interact with renames, addresses, registration, size and cancellation in any order.",
 ["server/s_group.c"],
 [("entry test","server/s_group.c:s_change"),("invitation lists","server/s_group.c:s_invite, s_cancel")],
 [("n_invites/nr_invites/s_invites/sr_invites/size/control","entry rules","server/server.h")],
 ["replies to group changes; membership"])

p("C12","Secret and invisible groups and their members stay hidden",
 "A listing requested by someone who is neither in the group nor invited to it never reveals the name of a secret group, and a listing of all groups or of the group of a named user reveals neither the existence nor the members of an invisible one (who already knows a group's name may list it by that name); the whereabouts of a user in a secret or invisible group, and the coming and going of a user whose group is invisible, are likewise not disclosed to outsiders. Members and those invited see the real data. Only an administrator is exempt where the documentation grants it.",
 ["histories","inputs"],
 "every history of status changes and moves followed by any listing, whereabouts or notification request from any user",
 "Tests do not request listings as an outsider of secret groups in combination with moderator-by-absence, notification lists, or status changes.",
 ["server/s_who.c","server/s_group.c","server/msgs.c","server/ipcf.c","server/s_user.c"],
 [("visibility tests in listings","server/s_who.c"),("visibility tests in whereabouts and notifications","server/s_user.c, server/ipcf.c, server/msgs.c")],
 [("g_tab[].visibility","visibility of a group","server/server.h")],
 ["every frame received by outsiders"])

p("C13","Administrative commands work only for the administrator",
 "Shutdown, restart, drop, wall broadcast and log-level commands take effect only when issued by a user who logged in as the administrator with the correct administrator password; from anyone else, whatever nickname he has or had, they are refused with an error and change nothing. The administrator's nickname cannot be obtained without that password, at login or by renaming. A wall reaches every logged-in user exactly once, and a drop removes exactly the named user.",
 ["histories","inputs"],
 "every history of logins, renames and administrative commands with arbitrary passwords",
 "Tests try the admin commands once each; they do not try to obtain the name by other routes or check that refused commands change nothing.",
 ["server/s_admin.c","server/access.c","server/s_user.c","server/msgs.c"],
 [("admin check","server/access.c:check_auth, server/s_admin.c"),("name reservation","server/s_user.c:s_name, server/msgs.c:loginmsg")],
 [("u_tab[].nickname == admin","administrator session","server/s_admin.c")],
 ["error frames, connections closed, Wall frames received by all clients"])

p("C14","A registered nickname's password protects its identity and data",
 "A user is treated as registered only after giving the exact password stored for that nickname (at login or later), or on the login where stored user, host and nickname all match unless the owner demanded a password; a nickname is registered once, and afterwards its password and data change only for its authenticated owner who also supplies the required password. Wrong or missing passwords never authenticate and never alter or delete anything, and a nickname whose owner demanded a password is never authenticated without one. Registration data set by the owner are what any later lookup shows until the owner changes them.",
 ["histories","inputs"],
 "every history of registrations, logins, renames, password changes, deletions and lookups over a few nicknames, with right, wrong, missing and oddly-cased passwords",
 "Tests register one nickname once; they do not cross renames, several sessions and password changes.",
 ["server/access.c","server/icbdb.c","server/s_auto.c","server/s_user.c"],
 [("password check","server/access.c:check_auth"),("registration commands","server/access.c:nickwrite, nickchpass, nickdelete"),("lookups","server/access.c:nicklookup")],
 [("database records nick.*","registration data","server/icbdb.c")],
 ["replies of the registration service, registered status in listings, database contents"])

p("C15","Acknowledged database updates survive crashes; no crash corrupts the database",
 "Once the server has acknowledged and finished a registration, a change of registration data, the storing of a message or its removal, that effect survives a crash or restart of the server at any later instant. At every instant the stored database is a complete earlier or current state: a crash, a full disk or an I/O error in the middle of an update never yields a mixture, a truncated or an unreadable database, and after restart all records that were not being changed are intact. A failing disk never crashes the running server.",
 ["crash_points","fault_sequences","histories"],
 "a crash at every system call of every database update, and disk errors (no space, I/O error, short write, failed flush or rename) at each of them",
 "No test kills the server or injects a disk fault; a test that stops the server cleanly once samples a single crash point.",
 ["server/icb_dbm.c","server/icbdb.c","server/access.c","server/main.c"],
 [("write to temporary file, flush, rename","server/icb_dbm.c"),("when the table is written out","server/icbdb.c:icbdb_close")],
 [("in-memory table and file","registration and message store","server/icb_dbm.c")],
 ["simulated disk's durable contents after each crash; lookups after restart"])

p("C16","Stored messages are delivered once to their owner, and never exceed the cap",
 "A message written for a registered nickname is kept, in order, until its owner, authenticated, reads it; reading delivers each stored message exactly once with its author and text and then removes it, and nobody else can read it. The owner is told of waiting messages when signing on. At most twenty messages wait for one nickname, further ones are refused with an error, and a message for an unregistered nickname is refused.",
 ["histories","schedules","crash_points"],
 "every history of writes and reads by several users, reads with a full mailbox, and disconnects during them",
 "Tests write and read one message; they never fill a mailbox, interleave writers and readers, or disconnect in the middle.",
 ["server/access.c","server/icbdb.c","server/s_auto.c"],
 [("message storage","server/access.c:nickwritemsg, nickreadmsg, nickckmsg")],
 [("database records nick.nummsg/header/from/message","mailbox","server/access.c")],
 ["frames received by owner and others, database contents"])

p("C17","A departed user leaves nothing behind; a new one inherits nothing",
 "However a session ends, the user disappears at once from listings, lookups and group membership, the rest of the group is told exactly once (unless the group is quiet), and no later message, notification, permission or moderator right is attributed to him. A new connection that happens to reuse the same internal slot starts with nothing of the previous user: no nickname, group, registration, hush, notification, away, echo or beep setting, reply target, pending removal, flood count or unread input. Nothing of what the server remembers about users and groups is forgotten without being given back: at the end of any history every piece of memory it holds can still be reached, so sessions and commands can go on for ever.",
 ["histories","schedules","fault_sequences"],
 "every way and moment of ending a session (close, reset, drop, failed login, error while sending) followed by any reuse of the slot",
 "Tests connect and disconnect a few times with the same settings; stale state only shows when the previous occupant had unusual settings and ended at an unusual moment.",
 ["server/ipcf.c","server/users.c","server/send.c","pktserv/pktsocket.c"],
 [("clean-up","server/ipcf.c:s_lost_user, server/users.c:clear_user_item"),("slot initialisation","pktserv/pktsocket.c:pktsocket_accept")],
 [("u_tab, S_kill, lpriv_id, pong_req, ping_time, flood counters","per-slot state","server/globals.c")],
 ["Sign-off frames; behaviour of later users of the slot"])

p("C18","Only a correct login makes a user, and a failed login leaves no trace",
 "Until its login succeeds a connection can do nothing but log in, list users or ping: every other packet is refused and has no effect on any user or group. A login that is denied (unusable or taken nickname, host on the deny list, wrong administrator password, forbidden group, unknown login command) leaves no user, nickname or group membership behind and the connection is told why and closed. A successful login is acknowledged, announced once to the group joined, and puts the user in the group asked for or the default one.",
 ["histories","inputs","configurations"],
 "every packet sequence on connections that are not logged in, every field combination of the login packet, every deny and permission file, interleaved with other sessions",
 "Tests log in correctly and once with a duplicate; they do not mix failed logins, retries on the same connection and other users' activity.",
 ["server/msgs.c","server/dispatch.c","server/access.c","server/icbutil.c"],
 [("login","server/msgs.c:loginmsg"),("gate in command and message handlers","server/msgs.c:cmdmsg, openmsg"),("deny and permission files","server/icbutil.c or server/access.c")],
 [("u_tab[].login","login state","server/server.h"),("S_kill","pending removal","server/globals.c")],
 ["reply frames, closing of the connection, who listings by others"])

p("C19","Idle rules act on time, only on idle users, and follow activity",
 "A user who has sent nothing for longer than his group's idle limit, and only such a user, is moved once to the idle group, with the group's message shown to him and to the group; a moderator idle longer than the group's moderator limit, and only then, loses the right to a less idle member who is not away. Limits set by the moderator, including disabling, are the ones applied, activity restarts the count, and each action happens within a bounded time after its limit is passed. Clock jumps and stalls cause no other effect.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of activity, limit changes, moves and elapsed time including clock jumps",
 "The default limits are an hour; no test waits for or controls time.",
 ["server/ipcf.c","server/s_group.c"],
 [("periodic check","server/ipcf.c:s_didpoll"),("limits","server/s_group.c status b, im, idlebootmsg")],
 [("t_recv, idleboot, idlemod","idle accounting","server/server.h")],
 ["Idle-Boot and Idle-Mod status frames, membership"])

p("C20","A scheduled shutdown happens when announced, and can be cancelled",
 "When the administrator schedules a shutdown the server stops at the scheduled time and not before, every logged-in user having been warned once when five minutes and once when one minute remain (as far as the notice allows); cancelling it means no shutdown and no warnings. Anyone may ask for the remaining time and gets the true answer. A refused or malformed request changes nothing.",
 ["schedules","histories","inputs"],
 "every history of scheduling, rescheduling and cancelling, with any passage of time, stalls and clock jumps",
 "Tests cannot wait out the schedule and never cancel or reschedule.",
 ["server/s_admin.c","server/ipcf.c","server/s_shuttime.c"],
 [("schedule","server/s_admin.c:s_shutdown"),("periodic check","server/ipcf.c:s_didpoll"),("query","server/s_shuttime.c")],
 [("TimeToDie, ShutdownNotify","shutdown schedule","server/globals.c")],
 ["Shutdown frames, process exit time"])

p("C21","Hush, notify, away and echo settings do exactly what they list",
 "Adding a name or address to a hush or notify list makes exactly messages from (or sign-ons and sign-offs of) matching users be suppressed (or reported, once each) from then on, adding it again removes it, and the list shown is the list in force; full lists refuse additions. While away, a user's private correspondents are answered with his away text and repeated messages from the same correspondent within ten seconds are not answered again; returning clears it. Each user's settings affect only that user.",
 ["histories","schedules","inputs"],
 "every history of list edits, settings, sign-ons, sign-offs, renames, messages and elapsed time",
 "Tests set each option once and look at the acknowledgement, not at its effect under later histories.",
 ["server/s_user.c","server/send.c","server/msgs.c","server/ipcf.c","server/namelist.c"],
 [("list editing","server/s_user.c"),("list matching","server/namelist.c:nlmatch")],
 [("hush and notify lists, awaymsg, echoback, nobeep","per-user settings","server/server.h")],
 ["Notify-On/Notify-Off/Away/Bounce frames and list output"])

p("C22","Flood control removes the flooder from the public group and nobody else",
 "A user who sends too many public messages too fast in the public lobby is moved by the server to the penalty group, once, with notice to him and to the lobby; slower senders, other groups, and users who merely follow a flooder in time or on the same connection slot are never moved. A user marked slow in the permission file has at most one packet per second acted on, all of them eventually, while others are not delayed.",
 ["schedules","histories","configurations"],
 "every timing of public messages by several users including bursts in one instant and slot reuse",
 "Flood handling depends on message timing across seconds; no test floods.",
 ["server/msgs.c","server/s_group.c","server/icbutil.c"],
 [("message counters","server/msgs.c:openmsg"),("slow users","server/icbutil.c:ok2read")],
 [("u_recv_count and related counters","flood accounting","server/msgs.c")],
 ["Boot-type frames, membership, dispatch times"])

p("C23","Displayed hosts and host-based decisions rest on verified names",
 "The host shown for a user and used for deny lists, permissions, invitations, hushing and notification is the reverse-resolved name only if that name resolves back to the connecting address, and otherwise the numeric address in brackets; resolver failures or lies never make a user appear under a name that does not map to his address. Over-long names are truncated, never overflow, and a resolver or address failure never prevents others from being served.",
 ["fault_sequences","inputs","configurations"],
 "every answer or failure of the resolver at connect time, for any number of connecting clients",
 "Loopback always resolves to itself in the tests; none makes the resolver lie or fail.",
 ["pktserv/getrname.c","server/send.c"],
 [("double reverse lookup","pktserv/getrname.c:getremotename")],
 [("u_tab[].nodeid","host of a user","server/server.h")],
 ["host field in listings and sign-on announcements"])

p("C24","A restart command hands all sessions over intact, or changes nothing",
 "An authorised administrator's restart command replaces the running server by a new image in which every user on a plain connection that is between packets is still connected and logged in under the same name, in the same group, with the same role, lists, settings and times, and all users are told before and after (only the administrator if the restart is quiet); groups, mailboxes and registrations are as before. Connections that cannot be carried over (encrypted ones, unfinished logins, half-transferred packets) end in the ordinary way, with the ordinary announcements, and both ports accept new ones. A restart that cannot be carried out leaves the server and all sessions as they were, and says so; nobody else's command restarts anything.",
 ["histories","crash_points","fault_sequences","schedules"],
 "every state of users, groups and connections at the moment of the restart, any number of restarts, and any failure of the steps it takes (file, process creation, execution)",
 "No test restarts the server.",
 ["server/icbutil.c","server/s_admin.c","server/main.c","pktserv/pktserv.c"],
 [("dump and load of the state","server/icbutil.c:icbdump, icbload"),("the command","server/s_admin.c:s_restart"),("sockets taken up again","pktserv/pktserv.c:pktserv_dumpsockets, pktserv_loadsockets")],
 [("icbd.dump","serialised state","server/icbutil.c")],
 ["behaviour of sessions after the new image starts"])
p("C25","Questions are answered truthfully, completely, and to the asker alone",
 "What a user asks the server is answered to that user and nobody else. The message of the day (on request and at login), the news and the help are the present contents of their files, line by line and in order (an over-long line is cut, lines and files are never mixed, %U in the message of the day stands for the server's start time); a file that is missing, cannot be opened or cannot be read to its end is reported or shown as far as it goes and has no other effect. A ping reaches exactly the named user (the asker himself if none is named), its answer is reported once, to whoever pinged last, with the time that passed, and an answer nobody is waiting for is reported to the one who sent it. /whereis, /stats, /v and /shuttime tell the true address, idle time, counts, version and remaining time. Asking changes nothing for anyone else.",
 ["histories","inputs","fault_sequences","schedules"],
 "every content of the text files and every moment at which an operator edits them or they fail to open or read, every interleaving of pings, answers, renames, departures and newcomers, and every clock reading",
 "No test reads any of these files, edits one while the server runs, makes one fail, or measures a ping; /whereis and /stats are at most looked at once.",
 ["server/s_motd.c","server/s_news.c","server/s_user.c","server/s_info.c","server/s_stats.c","server/s_version.c","server/msgs.c"],
 [("text files","server/s_motd.c:s_motd, server/s_news.c:s_news, server/s_user.c:s_help"),("ping and its answer","server/s_user.c:s_ping, server/msgs.c:pong"),("who is where","server/s_info.c:s_info"),("counters","server/s_stats.c:s_stats")],
 [("pong_req[], ping_time[]","who waits for an answer, since when","server/globals.c"),("motd, news.N, icbd_help","text files","server working directory")],
 ["command output, status and ping frames"])
p("C26","The server comes up as it was told to, or stops and says so",
 "When the server has come up it listens for plain connections on the plain port and, if told to, for TLS connections on the TLS port, on the address it was given (without one, on all addresses: IPv4 and IPv6 clients are both served where the host has both), and on nothing else; its process id is in the pid file; it is in the background unless told to stay in the foreground. If a port, the certificate, the log or the process it needs cannot be had, it ends with a failure status, leaving the database and the pid file as they were, and never runs serving only part of what was asked for. An address family that cannot be used is done without if another can, and a port used until a moment ago by a server that has ended can be used again at once. Failures of what it can do without (pid file, host name) do not stop it. A running server is not ended by a broken pipe or a hangup signal; told to terminate or interrupted it ends with success.",
 ["inputs","fault_sequences","crash_points"],
 "every combination of ports, addresses and modes on the command line, every system call of the start-up failing with every error, connections of a predecessor still lingering, and every signal",
 "The tests start the server one way, on a host where everything works; none lets a call of the start-up fail, takes a port away, runs it in the background, or starts it again on the port of a server that has just gone.",
 ["server/main.c","pktserv/pktserv.c","pktserv/sslconf.c","server/icbutil.c"],
 [("one socket per port, IPv6 with IPv4 mapped first, then IPv4","pktserv/pktserv.c:pktserv_addport"),("start-up order: log, ports, certificate, background, tables, pid file","server/main.c:main"),("signals","server/icbutil.c:trapsignals")],
 [("port_fd, sslport_fd, listening cbufs","what the server listens on","pktserv/pktserv.c"),("icbd.pid","process id of the running server","server working directory")],
 ["listening sockets, exit status, pid file, database file"])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
