#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []
def prop(id, title, st, over, q, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(obs) or ["bytes each client receives from the server"], hook_needed=None)))
PS = "pktserv/pktserv.c"; PK = "pktserv/pktsocket.c"
prop("C01", "Every packet a client sends is handled once, whole and in order",
 "However a client's byte stream is cut into pieces, and whatever output or other traffic is in progress meanwhile, the server acts on exactly the packets of that stream, each once, complete and in order, and never on a partial one. All valid lengths up to the maximum are accepted, also when the terminating zero byte is missing. A packet with an invalid length (zero or too long) gets that connection closed, nothing after it is acted on, and no other connection is affected.",
 ["schedules", "inputs", "histories"], "all segmentations of the byte streams of one or two clients, all interleavings with output to them, blocked output, other clients' messages and closes",
 "tests send whole packets over loopback, where each arrives in one piece; no test splits a packet or sends while output is pending",
 [PS, PK, "pktserv/pktbuffers.c", "server/dispatch.c"],
 [("incremental reader with header/body states", PK + ":pktsocket_read"), ("per-connection state machine", PS + ":pollfd_state_machine")],
 [("partial packet buffer", "bytes of the packet being read and how many are missing", "pktserv/pktserv_internal.h")])
prop("C02", "A slow reader gets whole packets in order and disturbs nobody",
 "Whatever the pace at which a client accepts output, the bytes it receives are the packets addressed to it, whole, unmodified and in order, and a packet is left out only if ten packets were already waiting for that client. Its connection is closed for slowness only after more than ten sending attempts in a row completed no packet, and the server neither blocks nor spins on it. Meanwhile what it sends is still handled and all other clients receive their packets immediately and completely.",
 ["schedules", "histories", "fault_sequences"], "all sequences of messages, window grants (including single bytes), blocking, closes and resets up to the depth bound",
 "loopback sockets in the tests never fill up, so partial writes and queueing are never reached",
 [PS, PK, "pktserv/pktbuffers.c", "server/send.c"],
 [("bounded send queue and retry counter", PS + ":pktserv_send"), ("resumable writes", PK + ":pktsocket_write")],
 [("send queue", "packets accepted but not completely written", "pktserv/pktserv_internal.h")])
prop("C03", "A lost connection signs its user off exactly once and leaves nothing behind",
 "However a connection ends (close, reset, in the middle of a packet or of the login, dropped by the server), it is closed, its user vanishes from every list at once and the nickname is free again, and the members of its group see exactly one sign-off notice. A later connection that happens to reuse the same slot starts clean: it inherits no identity, group, registration, lists, away or other settings, pending requests or unsent output of the earlier one. A connection that never completed login disappears without any notice.",
 ["histories", "schedules", "fault_sequences"], "all sequences of connects, logins, state-setting commands, closes, resets, half packets and reconnects up to the depth bound",
 "tests close connections one way at a time and do not look for leftovers in reused slots",
 [PS, "server/main.c", "server/ipcf.c", "server/users.c", "server/msgs.c"],
 [("lost-client callback", "server/ipcf.c:s_lost_user"), ("record clearing", "server/users.c:clear_user_item"), ("disconnect states", PS + ":handle_disconnect")],
 [("user table", "one record per connection slot", "server/users.c")])
prop("C04", "Nothing works before login, and only a valid login signs a user on",
 "Until its login succeeds a connection is invisible to everybody, receives no chat traffic and can cause no effect or message for anybody else. A login is accepted exactly if the nickname is free, nickname and login id have a valid length and valid characters, the site is not denied, and the desired group admits the user; then the connection is acknowledged, and otherwise it gets an error and an exit packet and is closed. A second login on a connection changes nothing.",
 ["inputs", "histories"], "all sequences of well- and ill-formed login packets, pre-login commands and re-logins from several connections up to the depth bound",
 "tests try a handful of logins; not every packet type before login, nor combinations with existing users",
 ["server/msgs.c", "server/dispatch.c", "server/ipcf.c"],
 [("login validation", "server/msgs.c:loginmsg"), ("state check in the dispatcher", "server/dispatch.c:dispatch")])
prop("C05", "No two signed-on users ever share a nickname",
 "At every moment nicknames of signed-on users are pairwise different ignoring letter case, whatever logins, renames, rejected characters, disconnects and reserved names are involved. A rename to a taken, empty or reserved name is refused and changes nothing; a successful one is announced to the group with the old and the new name, and from then on messages, lists and commands know the user by the new name only. Registration status never carries over to a new name unless that name is claimed anew.",
 ["histories", "inputs"], "all sequences of logins, renames and sign-offs over a set of colliding spellings up to the depth bound",
 "tests try one or two collisions; not names that become equal after filtering or truncation, nor every history",
 ["server/msgs.c", "server/s_user.c", "server/users.c", "server/strutil.c"],
 [("uniqueness check", "server/users.c:find_user"), ("rename", "server/s_user.c:s_name"), ("name filtering", "server/strutil.c:filternickname")])
prop("C06", "An open message reaches exactly the other members of the sender's group",
 "An open message, or one sent with an exclusion, is delivered once, attributed to its sender and with its text unaltered, to every signed-on member of the sender's current group except the sender (who gets a copy only with echo enabled), except members who hushed the sender for open messages and except the excluded user. Nobody outside the group receives it, and a sender who is alone is told so. In quiet groups open messages are refused with an error.",
 ["histories", "inputs"], "all sequences of group changes, hushing, echo and volume changes and messages among three to four users up to the depth bound",
 "tests check one broadcast among two or three clients",
 ["server/msgs.c", "server/s_group.c", "server/s_user.c", "server/send.c", "server/unix.c"],
 [("group fan-out", "server/s_group.c:s_send_group"), ("hush lists", "server/namelist.c:nlmatch")])
prop("C07", "In a controlled group only the moderator and permitted users can speak",
 "In a controlled group an open message (plain or with exclusion) is delivered only if its sender is the moderator or holds talk permission; everybody else gets an error and nothing is delivered. Permission is given and withdrawn only by the moderator, for a nickname or for a registered nickname exactly as requested, and it is listed truthfully. Permission for registered users applies to them only while they are registered.",
 ["histories"], "all sequences of talk-permission changes, mode changes, renames, moderator changes and messages up to the depth bound",
 "no existing test covers controlled groups beyond single commands",
 ["server/s_group.c", "server/msgs.c", "server/namelist.c"],
 [("talk check", "server/s_group.c:talk_allowed"), ("permission editing", "server/s_group.c:s_talk")])
prop("C08", "Private messages reach exactly the addressee, with truthful feedback",
 "A private message is delivered exactly once to the signed-on user of that name (ignoring case) and to nobody else, attributed to the sender with its text unaltered; if there is no such user the sender is told and nothing is delivered. If the addressee hushed the sender for private messages it is not delivered and the sender is told it bounced. A sender with echo-back for private messages gets its copy, an away addressee's away text is returned to the sender but not more than once per ten seconds to the same one, and nothing else is generated.",
 ["histories", "inputs"], "all sequences of private messages, hushing, away, echo and rename commands among three users, with time passing, up to the depth bound",
 "tests send a few private messages without hush/away/echo interplay",
 ["server/s_person.c", "server/send.c", "server/s_user.c", "server/msgs.c"],
 [("delivery", "server/s_person.c:s_personal"), ("bounce on hush", "server/send.c:sendperson"), ("away handling", "server/s_user.c")])
prop("C09", "Who lists show exactly the users and groups there are",
 "For every history, a who listing of all groups, of one group, or of one user's group shows each signed-on user once, in the group they are really in, with correct moderator mark, nickname, idle time, sign-on time, login id, host and flags, and correct group name, mode, moderator, topic and totals. A group exists exactly while it has members, and its name can be used afresh afterwards with no trace of the earlier group's settings. Location and status queries agree with the same facts.",
 ["histories"], "all sequences of logins, group changes, renames, sign-offs, status changes and time steps up to the depth bound, listing after each",
 "tests check that a name appears in a listing; not complete listings after arbitrary histories",
 ["server/s_who.c", "server/groups.c", "server/s_group.c", "server/users.c"],
 [("listing", "server/s_who.c:s_who"), ("group bookkeeping", "server/groups.c")])
prop("C10", "Restricted and full groups admit only those entitled",
 "A restricted group is entered only by users holding a matching invitation, by its moderator, by the administrator, or by being moved there by the server; a moderated or controlled group with a size limit is not entered by an ordinary user once it has that many members. Invitations are issued and cancelled only by the moderator (in groups with one), match exactly the nickname, address or registered nickname stated, and cease to work when cancelled or when the group is opened. Refused users stay where they are and are told.",
 ["histories"], "all sequences of invitations, cancellations, mode changes, entries, renames and departures up to the depth bound",
 "tests cover one invite/join pair; not cancellations, restriction of a populated group, registered-only invitations or size limits in all orders",
 ["server/s_group.c", "server/namelist.c", "server/groups.c"],
 [("admission", "server/s_group.c:s_change"), ("invitation editing", "server/s_group.c:s_invite, s_cancel"), ("status changes", "server/s_group.c:s_status")])
prop("C11", "Only the moderator can exercise moderator powers",
 "In a group with a moderator, changing its mode, visibility, volume, name, size, idle limits or topic, removing members, passing the moderation on, inviting or giving talk permission has an effect only when the moderator (or, where provided, the administrator) asks for it; anybody else is refused with an error and nothing changes. In groups without moderator only the changes open to everybody are possible, and the built-in groups cannot be changed by anyone. Permitted changes take effect exactly as requested and are announced as the group's volume prescribes.",
 ["histories"], "all sequences of moderator commands by moderator, members, outsiders and the administrator, with passes and departures, up to the depth bound",
 "tests try a few moderator commands, mostly successful ones",
 ["server/s_group.c"],
 [("authority checks", "server/s_group.c:s_status, s_boot, s_pass, s_topic, s_invite, s_talk"), ("moderator lookup", "server/groups.c")])
prop("C12", "Moderation passes on as promised when a moderator leaves or idles",
 "When an unregistered moderator signs off, the least idle remaining member becomes moderator at once; for a registered one the post stays reserved for the announced five minutes, is given back if that registered user returns, and otherwise goes to the least idle member who is not away. A moderator who only changes groups keeps the post; one idle beyond the group's limit loses it when somebody less idle is present. A moderated group never has two moderators, and every change is announced to the members.",
 ["histories", "schedules"], "all sequences of sign-offs, returns, group changes, passes, away settings and time steps across the time-out boundaries up to the depth bound",
 "tests cannot wait for real time-outs and try single hand-overs",
 ["server/s_group.c", "server/ipcf.c", "server/main.c", "server/access.c"],
 [("sign-off hand-over", "server/ipcf.c:s_lost_user"), ("time-outs", "server/ipcf.c:s_didpoll"), ("return of a registered moderator", "server/access.c")])
prop("C13", "Secret groups and their members are not revealed to outsiders",
 "A user who is neither a member of nor invited to a secret group never learns its name from listings, and one of an invisible group learns neither its name nor who is in it from listings, location queries, joining by user name or sign-on and sign-off notifications. Members, invited users and the administrator see them normally. Becoming secret, invisible or visible again takes effect immediately for every kind of query.",
 ["histories"], "all sequences of visibility changes, invitations, moves and queries of every kind by member, invited user, outsider and administrator up to the depth bound",
 "tests look at one listing of one hidden group",
 ["server/s_who.c", "server/s_group.c", "server/s_user.c", "server/ipcf.c"],
 [("visibility filter in listings", "server/s_who.c"), ("whereis", "server/s_user.c"), ("notify suppression", "server/msgs.c, server/ipcf.c")])
prop("C14", "Sign-on and sign-off notifications are complete and exact",
 "A user watching a nickname or login address gets exactly one notice each time a matching user signs on or off, and none otherwise; while the watched user's group is invisible there is none. Adding and removing watches takes effect immediately, the list shown is exactly the set of watches, and a further watch on a full list is refused with an error. Nobody else is notified.",
 ["histories"], "all sequences of watch changes, sign-ons, sign-offs, renames and group changes up to the depth bound",
 "tests cover one notification", ["server/s_user.c", "server/msgs.c", "server/ipcf.c", "server/namelist.c"],
 [("watch lists", "server/s_user.c:s_notify"), ("notices", "server/msgs.c, server/ipcf.c:s_lost_user")])
prop("C15", "A registered nickname is usable as such only with its password",
 "A user counts as registered exactly if it signed on from the address recorded for the nickname (and the nickname is not marked secure) or presented the right password for it, and loses that status on renaming or deletion. Only a registered user can change the password, personal data, security mark or delete the record of that nickname, and only its own; a wrong password changes nothing. What is stored is returned unaltered by the lookup command, for every history, across sign-offs.",
 ["histories", "inputs"], "all sequences of registrations, authentications with right and wrong passwords, changes, deletions, renames, and sign-ons from home and foreign addresses up to the depth bound",
 "tests do one registration and one lookup", ["server/access.c", "server/icbdb.c", "server/s_auto.c"],
 [("password check", "server/access.c:nickwrite"), ("home address match", "server/access.c:nicklookup"), ("owner-only changes", "server/access.c:nickchpass, nickdelete, nickchinfo")])
prop("C16", "Stored messages reach the registered addressee exactly once",
 "A message written to a registered nickname is kept, with its sender and time, until that user, authenticated, reads its messages; then every kept message is delivered in the order written, each once, and removed. At most twenty are kept and further ones are refused with an error, only registered users can write or read, and nobody else can read them. The number announced at sign-on is the number kept.",
 ["histories"], "all sequences of writes, reads, sign-ons and authentications among three users, including full mailboxes, up to the depth bound",
 "tests store and read one message", ["server/access.c", "server/icbdb.c"],
 [("writing", "server/access.c:nickwritemsg"), ("reading", "server/access.c:nickreadmsg")])
prop("C17", "The user database behaves as an exact, persistent map",
 "For every sequence of store, fetch, replace, delete, flush, close and reopen operations the database returns exactly what an ideal map from keys to values would, without duplicates, for empty, binary and maximal entries too. A file that is truncated or of a wrong format is rejected without crashing and without returning any entries, and no damage to the file makes the server crash. The same holds for the attribute layer on top: attributes of different users and names never interfere, and a list attribute holds exactly the elements added and not removed.",
 ["histories", "inputs", "crash_points"], "all operation sequences up to the depth bound over small colliding key and value sets; all single-byte corruptions and truncations of sample files",
 "unit tests use a few hand-picked sequences", ["server/icb_dbm.c", "server/icbdb.c", "server/dbm.h"],
 [("hash map with file image", "server/icb_dbm.c"), ("attribute layer", "server/icbdb.c")])
prop("C18", "User data survives a crash at any moment, whole",
 "If the server or machine stops at any point, including in the middle of writing, restarting yields a database equal to the state after some complete command, never a mixture, never damaged and never empty; if only the server process stopped, it includes every command whose processing had finished. A clean shutdown or restart keeps everything. A failure to write (full disk, I/O error) loses neither the old file nor the data held in memory.",
 ["crash_points", "fault_sequences", "histories"], "every crash point, every prefix of every write and every failed call, after every command sequence up to the depth bound",
 "tests never kill the server during a write", ["server/icb_dbm.c", "server/icbdb.c", "server/main.c", "server/ipcf.c"],
 [("write to temporary file, sync, rename", "server/icb_dbm.c"), ("flush per loop", "server/ipcf.c:s_didpoll")])
prop("C19", "Text is delivered sanitised: valid UTF-8 without control characters",
 "Whatever bytes a client sends, everything other clients receive is valid UTF-8 without control characters (bytes below 0x20) other than the protocol's own separators, fits the packet size, and cannot add or remove packet fields. Valid printable text, including multi-byte characters, passes unaltered up to the size limit, where it is cut without leaving part of a character. Nicknames and group names contain only the permitted characters.",
 ["inputs"], "all byte strings over an alphabet covering every UTF-8 byte class up to the length bound, at every position relative to the cut, through every message path",
 "unit tests check a few strings of the filter functions", ["server/strutil.c", "server/utf8.c", "server/send.c"],
 [("text filter", "server/strutil.c:filtertext"), ("UTF-8 state machine", "server/utf8.c"), ("name filters", "server/strutil.c:filternickname, filtergroupname")])
prop("C20", "Wildcard patterns match exactly as documented",
 "For every pattern and text, matching gives the answer of the textbook definition: star matches any sequence, question mark any single character, brackets one character of a set or range, negated by a leading caret, backslash takes the next character literally, all else itself, letter case being significant. Matching always terminates and never reads outside the strings, malformed patterns included. Hushes, invitations, permissions and access rules given as patterns apply accordingly.",
 ["inputs"], "all patterns and texts over an alphabet of all metacharacters and a few letters up to the length bound",
 "unit tests check a list of examples", ["server/wildmat.c", "server/namelist.c"],
 [("matcher", "server/wildmat.c:wildmat"), ("list matching", "server/namelist.c:nlmatch")])
prop("C21", "Administrative commands need the administrator's password",
 "Shutting down, restarting, broadcasting to all, changing the log level and disconnecting others have an effect only with administrator authority, that is for the user signed on under the administrator's name and giving the right password; the administrator's name can be taken only with that password. A user can be disconnected by a non-administrator only with that user's own registration password. Everybody else is refused and nothing changes; permitted commands have exactly their documented effect, and a scheduled shutdown is announced and then happens on time.",
 ["histories", "inputs"], "all sequences of administrative commands with right and wrong passwords by administrator, registered users and others, with time steps, up to the depth bound",
 "tests try a wrong and a right password once", ["server/s_admin.c", "server/icbutil.c", "server/s_user.c", "server/msgs.c"],
 [("authority check", "server/icbutil.c:check_auth"), ("commands", "server/s_admin.c")])
prop("C22", "Idle users are moved exactly when their group's limit is exceeded",
 "A user idle longer than the limit of its group is moved to the idle group, announced to the user and (unless quiet) the group with the group's message, hands any moderation over to the least idle member, and otherwise stays; users with activity within the limit, users in groups without limit and users already in the idle group are never moved. Activity of any kind that counts resets the idle time. Time-outs neither fire early nor are they missed, whatever the order of events around the limit.",
 ["histories", "schedules"], "all sequences of activity, group changes, limit changes and time steps just below, at and above the limits up to the depth bound",
 "tests do not wait for idle limits", ["server/ipcf.c", "server/s_group.c"],
 [("idle sweep", "server/ipcf.c:s_didpoll")])
prop("C23", "Beeps and pings reach only their target and are answered truthfully",
 "A beep is delivered once to the named user only, unless that user refuses beeps, in which case the sender is told (and the target too if it asked for that); settings are followed exactly in every order. A ping is forwarded to its target only, and its answer is reported with the measured time to the user who asked, and to nobody else even if that user left or the slot was reused. Unknown targets give an error.",
 ["histories", "schedules"], "all sequences of beeps, pings, pongs, setting changes and sign-offs among three users with time steps up to the depth bound",
 "tests send one beep and no ping sequences", ["server/s_beep.c", "server/msgs.c", "server/send.c", "server/s_user.c"],
 [("beep", "server/s_beep.c, server/send.c:sendbeep"), ("ping/pong bookkeeping", "server/s_user.c, server/msgs.c")])
prop("C24", "Encrypted connections behave exactly like plain ones",
 "Over TLS the same holds as for plain connections: exactly the packets sent are handled, whole and in order, however they are spread over records and reads, and output is whole and in order however slowly the client reads. Data already decrypted but not yet used is handled without waiting for more. A handshake that stalls, fails or is abandoned at any point affects nobody else, keeps the server from neither serving others nor sleeping, and leaves nothing behind.",
 ["schedules", "inputs", "fault_sequences"], "all segmentations into records and wire pieces, all interleavings with blocked output, other clients' traffic, handshake steps, closes and resets up to the bound",
 "tests run TLS over loopback with one packet per record", ["pktserv/sslsocket.c", PS, PK, "pktserv/sslconf.c"],
 [("TLS read/write wrappers", "pktserv/sslsocket.c"), ("state machine", PS + ":pollfd_state_machine")])
prop("C25", "Personal lists and settings are kept exactly",
 "Hush, notify and talk lists, echo, beep and away settings always equal what the sequence of commands specifies: entries are compared ignoring case, naming an entry again takes it off a hush or notify list, the newest entry comes first, a full hush or notify list refuses further entries and a full invitation or talk list forgets its oldest. Listings show exactly the current content. A setting affects only the user who made it.",
 ["histories"], "all sequences of list and setting commands over colliding names up to the depth bound, and all operation sequences of the list structure including overflow",
 "unit tests of the list use short fixed sequences", ["server/namelist.c", "server/s_user.c", "server/strlist.c"],
 [("bounded list", "server/namelist.c"), ("string lists", "server/strlist.c"), ("commands", "server/s_user.c")])
prop("C26", "No input makes the server crash, corrupt memory or hang",
 "No sequence of bytes from any number of clients, before or after login, valid or not, makes the server crash, stop serving, loop without progress, access memory out of bounds or after release, or invoke undefined behaviour. Every packet type and command tolerates missing, empty, superfluous, oversized and hostile fields. The server keeps serving the other clients meanwhile.",
 ["inputs", "histories"], "every command and packet type with every combination of field shapes (missing, empty, boundary and maximal lengths, format directives, binary) in every relevant user state, and pairs of them, under address and undefined-behaviour checking",
 "tests send mostly well-formed commands and run without memory checking", ["server/msgs.c", "server/dispatch.c", "server/strutil.c", "server/s_group.c", "server/access.c", "server/s_who.c"],
 [("field splitting", "server/strutil.c:split"), ("bounded copies", "server/*.c")])
prop("C27", "Site access rules are applied to every login",
 "A login is refused exactly if the rules files deny the combination of login id and host, with the stated reason where one is given; the first matching rule decides, wildcards included. Missing, empty or malformed rule files never let the server fail, and changes to the files apply to the next login. Users already signed on and connections from other sites are not affected.",
 ["configurations", "inputs"], "all rule files of up to three lines over a set of colliding patterns, with logins from matching and non-matching sites",
 "no test uses rule files", ["server/msgs.c", "server/icbutil.c"],
 [("rule lookup", "server/msgs.c:loginmsg")])
prop("C28", "Each command is executed by exactly the handler it names",
 "A command packet runs exactly the command named (in full, ignoring letter case), with exactly its arguments, and an unknown command or packet type is answered with an error to the sender and has no effect. The nickname server obeys the same commands sent as private messages, with the reply going to the sender only. Information commands (version, statistics, news, message of the day, help, uptime) answer only the asker and change nothing.",
 ["inputs", "histories"], "every command name, case variant, abbreviation and other near miss with zero to three fields, in pairs",
 "tests use each command in one spelling", ["server/lookup.c", "server/dispatch.c", "server/msgs.c", "server/s_auto.c"],
 [("lookup", "server/lookup.c"), ("dispatch", "server/dispatch.c, server/msgs.c:cmdmsg")])
prop("C29", "Nothing is used up: memory and files are given back",
 "Whatever clients do - commands accepted or refused, logins that succeed or fail, messages, connections that are closed, reset or dropped in any state - the server afterwards keeps no memory that nothing refers to and no file open that it does not need, so that it can run for any length of time.",
 ["histories", "inputs"], "all sequences over the alphabets of the other checks (every command, refusals, sign-offs, resets, TLS failures, database writes, rules files) up to the depth bound; accounted for after every step",
 "tests run one short server process and never look at its memory or descriptors", ["server/namelist.c", "server/users.c", "server/groups.c", "server/s_person.c", "server/icb_dbm.c", "server/msgs.c", PS, PK, "pktserv/pktbuffers.c"],
 [("lists", "server/namelist.c, server/strlist.c"), ("resetting a user or group slot", "server/users.c:clear_user_item, server/groups.c"), ("message buffers", "pktserv/pktbuffers.c, pktserv/pktserv.c"), ("rules and information files", "server/msgs.c, server/s_motd.c, server/s_news.c")],
 obs=["heap blocks that nothing in the server's memory refers to", "open descriptors"])
prop("C30", "A restart keeps everybody signed on",
 "When the administrator restarts the server, it goes on serving the same connections with a new process: every user and group, with all they have set - names, moderators, modes, limits, topics, idle messages, hushes, watches, invitations, permissions to talk in their order, away texts, idle times - is as before, nobody has to sign on again, packets sent meanwhile are handled, new clients can connect, and everybody (after a quiet restart only the administrator) is told that the server is back. Only connections that cannot be handed over (TLS, or caught in the middle of a packet) are ended, and properly. If the restart is not possible, everybody is told so and the server continues as it was.",
 ["histories", "fault points", "schedules"], "all sequences up to the depth bound of settings, events and restarts, restarts at the same moment as other events and with failures injected; and in every state that the other checks' large alphabets reach, a restart followed by their observations",
 "no test restarts the server", ["server/s_admin.c", "server/icbutil.c", "server/main.c", PS, "server/users.c", "server/groups.c"],
 [("asking for a restart", "server/s_admin.c:s_restart"), ("saving and loading the state", "server/icbutil.c"), ("handing the sockets over", "pktserv/pktserv.c:pktserv_dumpsockets, pktserv_loadsockets"), ("starting in restart mode", "server/main.c")])
if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        print(json.dumps(p))
