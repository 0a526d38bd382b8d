import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=[observe])))

p("C01","Channel and private messages reach exactly the right clients, once, in order",
"Every message an upstream server sends to one of the user's joined (attached) channels or to the user's nickname is delivered exactly once, in upstream order and with unchanged sender, target and text, to every client currently bound to that network, and to no client of another network or another user. Every message a client sends is forwarded exactly once, in order, to the server of the client's own network only, and the user's other clients on that network (plus the sender itself if and only if it negotiated echo-message) see it exactly once.",
["histories","schedules"],"all interleavings (up to the explored depth) of messages from two upstream servers, messages from several clients of two users, clients connecting, disconnecting and upstream reconnects",
"The existing tests run one client, one network and one fixed exchange; duplicates, losses and cross-network leaks need particular combinations of clients, capabilities and orderings.",
["upstream.go","downstream.go","user.go"],[("upstream message fan-out","upstream.go handleMessage PRIVMSG/NOTICE/TAGMSG, network.forEachDownstream"),("client message forwarding and self echo","downstream.go handleMessageRegistered PRIVMSG; upstream.go produce")],"lines written to each downstream and upstream connection")

p("C02","A returning client receives exactly the messages it missed",
"A client that (re)connects under a client name that was connected before receives, for every attached channel and every private conversation, exactly the PRIVMSG/NOTICE messages logged since the last one that client name acknowledged there: none lost, none repeated, in log order, tagged with their original time when it supports that and with the batch they are sent in. Clients with different names are tracked independently (of several connections with the same name only the first gets the backlog), a slow client or a network update changes nothing about it, and with a persistent message store this also holds after the bouncer restarts cleanly; clients that fetch history themselves get no automatic backlog.",
["histories"],"all sequences (up to the explored depth) of client connects/disconnects under two client names, upstream messages to a channel and a private target, own messages, and bouncer restarts, for each message store kind",
"The delivered-message bookkeeping depends on the whole connection history per client name, conversation and store, which a fixed test samples at one point.",
["user.go","downstream.go","msgstore/memory.go","msgstore/fs.go","msgstore/db.go"],[("delivery receipts","user.go deliveredStore, network.storeClientDeliveryReceipts"),("backlog replay","downstream.go welcome, sendNetworkBacklog, sendTargetBacklog")],"PRIVMSG/NOTICE lines sent to a client between registration and the next live message")

p("C03","Command replies go only to the client that asked, and every command ends",
"Each client request that the bouncer forwards as a tracked command (LIST, WHO, WHOIS and the like) is sent upstream once, one at a time per command kind and in request order, and all of its replies, and nothing else, are delivered to the client that asked and to no other client. Every such request terminates with its own final or error reply, even when the upstream disconnects, does not know the command or does not answer (a request unanswered for 30 seconds is given up once another one of its kind waits), and a client that leaves does not block or receive the replies of the requests of others.",
["schedules","histories"],"all interleavings (up to the explored depth) of requests from two clients, upstream replies, upstream errors, upstream disconnection, elapsed timeouts and client departures",
"Queue routing depends on the exact interleaving of requests, replies, disconnections and timeouts; tests never overlap two requests.",
["upstream.go","downstream.go"],[("pending command queue","upstream.go enqueueCommand, dequeueCommand, abortPendingCommands, cancelPendingCommandsByDownstreamID")],"numerics delivered to each client; commands written to the upstream")

p("C04","Detached channels stay silent, are logged, and replay what was missed on attach",
"While a channel is detached the bouncer stays in it upstream and keeps logging it, clients see it as parted, and its messages reach clients only as bouncer notices when the channel's relay filter allows. Detaching happens on request or after the configured idle period without a message matching the channel's detach filter, attaching happens on request or on a message matching the reattach filter; each transition is announced to every client exactly once, survives a restart, and on attach clients get the channel state and exactly the messages sent while it was detached.",
["histories"],"all sequences (up to the explored depth) of detach, attach, plain and highlight messages, elapsed idle time, client reconnects, upstream reconnects and restarts, for every filter setting",
"The behaviour depends on filter settings, timers and history of transitions; no existing test detaches a channel.",
["user.go","upstream.go","downstream.go","service.go"],[("detach/attach transitions","user.go network.detach/attach, eventChannelDetach"),("filters","upstream.go handleDetachedMessage, updateAutoDetach, isHighlight")],"JOIN/PART/NOTICE/PRIVMSG lines to clients, PART/JOIN upstream, channel records")

p("C05","Joined channels and their keys survive reconnects and restarts",
"After any history of joins, parts, kicks, server-forced channel changes, channel service commands and network reconnects or bouncer restarts, the set of saved channels is the set the user asked to join (or created, or detached) and has not parted or deleted, and every (re)connection to the upstream joins exactly those channels, once each, with their saved keys. A failed join, a kick, a forced part or join, or a lost connection never changes the saved channels, and parting or deleting one never leaves it saved.",
["histories"],"all sequences (up to the explored depth) of joins with and without keys, parts, kicks, join failures, disconnects, restarts",
"Needs long histories mixing user commands, server events and restarts; no test rejoins a channel.",
["user.go","upstream.go","downstream.go","xirc/genmsg.go"],[("saved channel records","downstream.go JOIN/PART handling; upstream.go JOIN/PART/KICK handling; database channel records"),("rejoin","upstream.go rejoin on end of MOTD, xirc.GenerateJoin")],"JOIN/PART lines sent upstream, channel status listing, Channel table")

p("C06","No client acts as a user without proving that user's identity",
"Until a connection has successfully authenticated, no sequence of messages makes the bouncer reveal a user's data or act on a user's behalf, and a completed registration is bound to exactly the account whose valid credentials were presented (an administrator may act as another user). Wrong, empty, aborted, restarted or reused credential exchanges never authenticate, disabled users are never served; a failed attempt is answered with an error, going on without valid credentials closes the connection, and so does not completing registration within 30 seconds.",
["inputs","histories"],"all sequences (up to the explored depth) of registration messages: PASS, NICK, USER, CAP, AUTHENTICATE with each mechanism and payload shape, BOUNCER BIND, post-registration commands",
"Bypasses need unusual orderings of registration messages; the tests only log in with one correct password.",
["downstream.go","server.go","auth/auth.go","auth/internal.go"],[("registration gate","downstream.go runUntilRegistered, handleMessageUnregistered, register, handleAuthenticateCommand, authenticate"),("password check","auth/internal.go; database User.CheckPassword")],"lines sent to the unauthenticated connection; which user's session it is attached to")

p("C07","Service commands respect privileges and never touch another user's data",
"A non-administrator can only read or change its own account, networks and channels through the bouncer service (commands, abbreviations and network options included); administrator-only commands, other-user targeting, and restricted settings are refused with an error and change nothing. An administrator command naming another user acts on that user alone and its reply goes only to the administrator, and a command that is refused or fails never leaves a partially applied change.",
["inputs","histories"],"every service command (with every unambiguous abbreviation) x argument shapes x caller privilege x own/other/unknown target, and all sequences of pairs of them",
"Authorisation must hold for each command, abbreviation and argument shape; the tests only parse a command line.",
["service.go","downstream.go","server.go"],[("command dispatch","service.go handleServiceCommand, runServiceCommand, serviceCommandSet.Get"),("admin flag and user run","service.go admin checks, handleUserRun, user update")],"service replies, database contents before and after")

p("C08","Network list, limits and notifications stay consistent",
"However networks are added, changed and removed (service or bouncer-networks commands), a non-administrator never ends up with more enabled networks than the limit, names and addresses stay valid and unique, refused operations change nothing, and the stored networks, the listed networks and the running connections always agree. Every client that asked for network notifications can reconstruct from them exactly the current list and its attributes, and clients bound to a deleted network are disconnected.",
["histories","inputs"],"all sequences (up to the explored depth) of network create/update/delete/enable/disable operations through both interfaces, by one or two clients, with upstream connects and disconnects",
"The guarantees relate three copies of the state (database, memory, clients' views) over every history of operations.",
["user.go","downstream.go","service.go","database/sqlite.go"],[("network operations","user.go createNetwork/updateNetwork/deleteNetwork/checkNetwork"),("bouncer-networks","downstream.go BOUNCER handling, getNetworkAttrs, service.go network commands")],"BOUNCER and service replies, Network table, upstream dials")

p("C09","Clients only see features they negotiated, and capabilities stay truthful",
"A client never receives a message tag, command or batch belonging to a capability it has not enabled (message-tags admits all tags), capability requests are applied all-or-nothing with a matching ACK or NAK, and the list of advertised capabilities always matches what requests accept. When the upstream connection of the client's network comes, goes or changes its offer, clients that asked for it are told about capabilities added or removed exactly when the availability changes, and a removed capability stops being usable.",
["inputs","histories"],"all subsets of an interesting capability set x all event kinds the upstream or other clients can generate, plus all sequences of CAP subcommands and upstream connects/disconnects up to the explored depth",
"The space is the product of capability subsets and event kinds; tests use one fixed capability set.",
["downstream.go","upstream.go","xirc/caps.go"],[("outgoing filters","downstream.go SendMessage, sendMessageWithID and per-event capability tests"),("negotiation","downstream.go handleCapCommand, updateSupportedCaps, setSupportedCap")],"every line sent to a client, against its set of enabled capabilities")

p("C10","History queries return exactly the selected messages",
"For every log content and every CHATHISTORY query (LATEST, BEFORE, AFTER, BETWEEN in both directions, TARGETS, with any bound and limit) the reply is one batch containing exactly the messages the query selects from the log of that target on the client's own network, in chronological order and bounded by the limit, with original sender, text and time; other users' and networks' logs are never included (in the file store, names differing only in '/', '\\' and '-' share a log), files are written only inside the configured directory, and invalid queries get an error. SEARCH returns exactly the messages matching all its attributes. The file store (for messages logged in time order, at a precision of one second) and the database store return the same content, also after a restart.",
["inputs","histories"],"all logs of up to N messages over two targets and small time/day grids x all query shapes, bounds and limits",
"Off-by-one and day-boundary errors show only for particular combinations of timestamps, bounds and limits; one existing test covers a single log with a handful of queries.",
["downstream.go","msgstore/fs.go","msgstore/db.go","msgstore/memory.go","msgstore/znclog/znclog.go","database/sqlite.go"],[("query parsing and reply","downstream.go CHATHISTORY/SEARCH handling"),("stores","msgstore LoadBeforeTime/LoadAfterTime/LoadLatestID/ListTargets/Search")],"batches sent to the client; messages returned by the stores")

p("C11","Read markers only move forward and agree everywhere",
"A conversation's read marker never moves backwards and never passes the current time, whichever clients set it and in whichever order; after every change all of the network's clients that support it are told the same value, the value returned on query is the stored one, and it survives restarts. Setting a marker never affects another conversation, network or user, and invalid timestamps are rejected without effect.",
["histories","inputs"],"all sequences (up to the explored depth) of marker reads and writes with earlier, equal, later, future and invalid timestamps by two clients on several targets with case variants, with restarts",
"Monotonicity and agreement are claims over all orders of updates by several clients.",
["downstream.go","database/sqlite.go"],[("MARKREAD/READ handling","downstream.go MARKREAD"),("persistence","database GetReadReceipt/StoreReadReceipt")],"MARKREAD replies and broadcasts")

p("C12","No message from a client or server can take down a user's session",
"No sequence of syntactically valid messages from an upstream server or from a client, before or after registration, in any order and with any number of parameters, crashes or wedges the worker serving that user: afterwards the user's other clients and networks still get service. At worst the offending connection is closed with an error (and connected to again, unless the server reported a permanent registration error).",
["inputs","histories"],"every known command and numeric x every parameter shape (missing, empty, malformed, referring to unknown/own entities) at each protocol phase, and all pairs of state-changing messages followed by each",
"A panic in one handler kills the user's whole session and only shows for specific malformed or mistimed messages.",
["upstream.go","downstream.go","user.go","irc.go","xirc/xirc.go"],[("message handlers","upstream.go handleMessage, downstream.go handleMessage, user.go run")],"liveness probe on another client after each sequence; worker panic counter")

p("C13","Every client sees the user's current nickname, host, account and real name",
"At every point, the nickname, user/host, account and real name that each client has been told for itself equal those the upstream server last reported for the user (nickname and real name fall back to the configured ones while disconnected), and changes made by a client or by the server, accepted or refused, reach the server once and all clients consistently. A client attaching later is told the same identity, and the identity used on the next connection is the configured one.",
["histories"],"all sequences (up to the explored depth) of nickname/realname changes by clients, by the server, refusals, reconnects, and clients attaching",
"Views of several clients must agree under every interleaving of changes, refusals and reconnects.",
["downstream.go","upstream.go","user.go"],[("self state tracking","downstream.go updateNick/updateHost/updateAccount/updateRealname; upstream.go NICK, 396, 900, SETNAME handling")],"messages sent to each client folded into that client's view of itself")

p("C14","A late client gets the same channel picture as one that was always there",
"The channel state the bouncer hands to a client that attaches, or that asks later (channels joined, topic with setter and time, members with their prefixes, channel modes and the user's own modes, WHO answers from the cache) equals the state implied by everything the upstream server has said since the channel was joined. This holds for every sequence of joins, parts, kicks, quits, nick changes, host, mode and topic changes, case variants of names included.",
["histories"],"all sequences (up to the explored depth) of membership, mode and topic events over a small set of members and two channels",
"Mirroring errors need particular event sequences (e.g. prefix kept across a nick change); the tests never look at NAMES.",
["upstream.go","downstream.go","irc.go","xirc/xirc.go","xirc/casemapping.go"],[("channel state","upstream.go JOIN/PART/KICK/QUIT/NICK/MODE/TOPIC/353 handling; irc.go applyChannelModes"),("forwarding","downstream.go/irc.go forwardChannel, NAMES/MODE/TOPIC queries")],"JOIN/TOPIC/NAMES/MODE replies to a newly attached client")

p("C15","Presence monitoring is aggregated correctly over all clients",
"The set of nicknames monitored on the upstream server is always the union of what currently connected clients monitor plus the wanted nickname while it is not held (within the server's limit; clients are told about nicknames beyond it), and each client is told online/offline status changes only for, and for all of, the nicknames it monitors itself. Adding, removing, clearing, disconnecting and reconnecting, in any interleaving, keep this true and list queries return exactly the client's own list.",
["histories"],"all sequences (up to the explored depth) of MONITOR +/-/C/L/S by two clients, online/offline events, client disconnects, upstream reconnects",
"Reference-counting mistakes only appear when several clients add and remove overlapping nicknames in particular orders.",
["upstream.go","downstream.go"],[("monitor aggregation","upstream.go updateMonitor; downstream.go MONITOR handling")],"MONITOR lines upstream; 730-734 numerics to clients")

p("C16","Automatic away reflects whether any client is present",
"On networks where it is enabled, the user is marked away upstream exactly when no client that counts as present is connected to that network (a client that has set itself away does not count), and marked back as soon as one is. Redundant away commands are not sent and the state is re-established after reconnects and restarts.",
["histories"],"all sequences (up to the explored depth) of clients connecting, leaving, setting and clearing away, upstream reconnects",
"Depends on the full history of client presence.",
["upstream.go","downstream.go","user.go"],[("auto-away","upstream.go updateAway; downstream.go AWAY handling; service.go network -auto-away")],"AWAY lines sent upstream")

p("C17","Connection output is ordered, complete on shutdown, and never blocks for ever",
"Messages queued on a connection are written in order, each at most once, and completely while the connection lives; a graceful end (the client quits, the bouncer shuts down) writes everything queued before closing. A close, a write failure or a peer that stops reading (for 10 seconds) ends the connection and releases every blocked sender, without holding up other clients. The configured rate limit is never exceeded while in force, and no message is lost because of it.",
["schedules","fault_sequences"],"all sequences (up to the explored depth) of send, shutdown, close, write completion, write failure, context cancellation and time advance over one connection with a full or empty queue",
"Requires write stalls and failures at each point of each operation sequence.",
["conn.go","rate.go"],[("writer goroutine","conn.go newConn, SendMessage, Shutdown, Close")],"lines written to the underlying connection; return of the calls")

p("C18","Stored data reads back exactly as written, and deletions remove everything",
"For every sequence of store and delete operations on users, networks, channels, credentials, receipts and subscriptions, listing returns exactly what a simple in-memory reference would, field by field, including after reopening the database; deleting an entity removes everything that belongs to it and nothing else. An operation that fails or is interrupted at any point leaves the data either as before or as after, never in between, and databases of every older schema version upgrade to the current one.",
["histories","crash_points"],"all operation sequences up to the explored depth over two users with two networks each, every field variation, and a failure injected at every SQL statement of each compound operation",
"Field mix-ups and missing cascades need specific sequences; atomicity needs a failure at each intermediate statement.",
["database/sqlite.go","database/database.go","database/utils.go"],[("SQLite backend","database/sqlite.go Store*/Delete*/List*, upgrade")],"values returned by the database interface")

p("C19","Upstream registration always ends in a correct session or a clean retry",
"For every order and content of server responses during registration (capability lists in one or several lines, acknowledgements, refusals, SASL outcomes, nickname errors, restricted or failing servers), the bouncer sends a well-formed registration exactly once per connection, only requests offered capabilities, only sends SASL credentials to a server offering SASL and never claims success before the server does. On failure, or when registration takes more than a minute, it either falls back or closes the connection and retries later with growing delays (at once after losing an established connection), stopping only for permanent errors, with at most one live connection per network at any time. Credentials a client logs in or registers with are stored once the server has accepted them, and used from then on.",
["inputs","fault_sequences"],"all sequences of server replies up to the explored depth for each configured SASL mechanism, plus all connect/registration failure sequences up to a bound",
"The handshake is a protocol state machine driven by the server's choices; tests use one welcome burst.",
["upstream.go","user.go","rate.go"],[("registration","upstream.go register, runUntilRegistered, handleCapCommand, SASL handling"),("reconnect loop","user.go network.run, backoffer")],"lines sent to the fake server; dial attempts over virtual time")

p("C20","Secrets sent to services never reach logs or other clients",
"Passwords the user sends to NickServ (identify, register, password-change commands), in SASL payloads, as connection passwords or in bouncer commands are never written to the message log or the bouncer's log, nor delivered to another user's client, another network's client or another server. Credentials the bouncer captures for later automatic login are the last ones presented to NickServ or accepted by the server over SASL or account registration, are stored only for that network, never replace a configured EXTERNAL login, and unrelated service commands never change them.",
["inputs","histories"],"all commands of the service credential grammar (case, arguments, targets) x echo and label capabilities x store kinds, and all SASL exchanges up to the explored depth",
"Whether something is a secret depends on the exact command shape and target.",
["downstream.go","upstream.go"],[("credential detection","downstream.go parseNickServCredentials, PRIVMSG handling; upstream.go produce/appendLog"),("SASL capture","upstream.go SASL success handling")],"message store contents; network SASL record")

p("C21","Uploaded files are authenticated, contained and returned unmodified",
"Only authenticated users can upload, files land only inside that user's area of the configured directory whatever names, types and headers are supplied, and a stored file is returned byte-for-byte with safe headers, never as active content. Files are only reachable through their unguessable name, an upload that fails or is truncated is not served as complete, and no request can read or write outside the directory.",
["inputs","fault_sequences"],"all combinations of path shapes, file names, content types, authorisation headers and methods from an adversarial set, and a body failure at every chunk boundary",
"Containment must hold for all hostile names and paths.",
["fileupload/fileupload.go","fileupload/fs.go"],[("HTTP handler","fileupload/fileupload.go ServeHTTP fetch/store"),("filesystem store","fileupload/fs.go load/store")],"HTTP responses and scratch directory contents")

p("C22","Name comparison follows the server's case mapping everywhere",
"For each case mapping a server announces, two names are treated as the same channel, nickname or conversation exactly when that mapping says so for as long as it is announced, both before and after the mapping changes on an existing set of entries. No entry is lost, merged or duplicated by switching to a mapping under which the names are still distinct.",
["inputs","histories"],"all names up to length 3 over an alphabet with every boundary character of each mapping, all map operation sequences up to the explored depth with mapping switches",
"Boundary characters and mapping switches are rarely sampled.",
["xirc/casemapping.go","upstream.go","user.go"],[("mapping functions and map","xirc/casemapping.go"),("switch on ISUPPORT","user.go updateCasemapping")],"map contents; channel identity visible to clients")

p("C23","Generated protocol messages lose nothing and fit in a line",
"When the bouncer packs lists (channel joins, member names, capability/ISUPPORT tokens, monitored nicknames) into protocol lines, the concatenation of the lines carries exactly the input items with their attributes (in order, except joins: those with keys come first), each line is well-formed, and no line exceeds the protocol limit unless a single item alone does. Message parsing helpers (channel status targets, member prefixes, mode changes, WHOX fields, CTCP) invert the corresponding encoders on every input.",
["inputs"],"all item lists up to a bound with lengths around every splitting boundary; all inputs up to a length over the grammar's alphabet",
"Splitting boundaries and index arithmetic fail only at specific lengths.",
["xirc/genmsg.go","xirc/xirc.go","xirc/whox.go","irc.go"],[("generators","xirc/genmsg.go"),("parsers","xirc/xirc.go, xirc/whox.go, irc.go")],"returned messages")

p("C24","The ident server answers exactly for live upstream connections",
"A query for a port pair is answered with the identifier of the user owning the matching currently open upstream connection, from the matching remote host only, and every other query gets an error reply. Any sequence of registrations, removals and queries, malformed ones included, keeps the server answering.",
["histories","inputs"],"all sequences (up to the explored depth) of store/delete/query over two connections and all query shapes from an adversarial grammar",
"Depends on store/delete history and malformed input shapes; there is no test.",
["identd/identd.go","user.go"],[("ident table","identd/identd.go Store/Delete/handle")],"ident responses")

p("C25","User accounts start, stop, change and disappear cleanly",
"Creating, updating, disabling, enabling, deleting users and shutting down always completes, in any order and whatever their clients and networks are doing: a disabled or deleted user's clients and upstream connections are closed and can no longer be used, a re-enabled or re-created one works, and other users are unaffected. If configured, users are disabled exactly when the last session of their own was closed longer than the given delay ago and no session is open. A crash while serving a user closes that user's connections only, a command that times out leaves a consistent account, and after a shutdown completes nothing is still connected and everything delivered before is stored.",
["schedules","histories"],"all sequences (up to the explored depth) of user create/update/disable/enable/delete/inactivity/shutdown operations with clients and networks in each state",
"Deadlocks and stale workers only appear for specific orders of lifecycle operations against live connections.",
["server.go","user.go","service.go"],[("user worker lifecycle","server.go addUserLocked/createUser/Shutdown/disableInactiveUsers; user.go run/stop/updateUser")],"service replies, open connections, worker liveness in virtual time")

p("C26","Push notifications go out exactly for what deserves attention",
"While web push subscriptions exist for a network, a notification carrying the message is sent to each of them for every message addressed to the user, every highlight in a channel (in detached ones unless they are never relayed), every invitation the bouncer does not act upon itself and every read-marker change that follows an unread notification of that conversation, and for nothing else. Own messages, server messages, other networks' messages and expired subscriptions never trigger one; subscriptions registered, replaced or removed take effect immediately and survive restarts, and those the push server reports gone (or which fail when a month old) are removed.",
["histories"],"all sequences (up to the explored depth) of upstream events of every kind, marker updates, subscription changes and expiry responses",
"Depends on event kinds x connected clients x marker history; there is no test.",
["user.go","server.go","downstream.go","upstream.go"],[("push fan-out","user.go broadcastWebPush; upstream.go PRIVMSG/INVITE handling; downstream.go MARKREAD, WEBPUSH")],"HTTP requests captured (and decrypted) at the push endpoint")
p("C27","Replies to labelled requests reach the client that asked",
"When the server supports labelled responses, every request a client makes is sent to the server once with a label of its own, and every reply to it (whatever the command and numeric, single, several, in a batch or a batch within a batch, or none; in whatever order the requests of several clients are answered) is delivered to that client, in order and without the tags used between the bouncer and the server, and to no other client, including one that connects after the asker left. Messages which answer no request go to all of the network's clients.",
["histories","schedules"],"all interleavings (up to the explored depth) of requests by two clients, answers in any order and form, batches under way, clients leaving and coming back, and reconnections",
"Misrouted replies need two outstanding requests answered out of order, a batch kept open across another reply, or an asker that left; no test has two clients.",
["upstream.go","downstream.go"],[("labels and batches","upstream.go SendMessageLabeled, handleMessage label and BATCH handling, forwardMsgByID"),("requests","downstream.go NAMES, TOPIC, MODE, KICK, INVITE, SETNAME, default forwarding")],"lines and labels reaching the server; lines written to each client")

p("C28","A nickname that was in use is taken back without the clients noticing",
"When the wanted nickname is in use while the bouncer registers, it asks for it again until it holds it: with MONITOR whenever the server reports it free, otherwise at once and then at growing intervals of at most some ten minutes, one request at a time, whatever nickname error it got before. It stops once it has held the nickname, even if it loses it later, and without MONITOR once the user wants another. Clients never see the refusals of these requests, always see those of their own, and always know their current nickname.",
["histories"],"all sequences (up to the explored depth) of answers (accepted, each nickname error, late), MONITOR reports, time passing, the clients' own nickname changes, forced changes and reconnections",
"Whether an attempt is still pending, who asked, and whether the nickname was ever held depend on the whole history; no test covers any of it.",
["upstream.go","user.go"],[("regaining","upstream.go startRegainNickTimer, tryRegainNick, stopRegainNickTimer; NICK, 433, 731 handling")],"NICK lines reaching the server; lines written to the clients")

p("C29","Requests and replies pass unchanged between a client and its own network",
"Whatever a client bound to a network asks of it - every command the bouncer does not answer itself, known or unknown - reaches that network's server exactly once, in order, with its parameters unchanged (and its client-only tags, if the server takes tags), one LIST, WHO or WHOIS at a time; nothing reaches another network's server, nothing is sent for a client without network, and nothing asked before a connection was lost or while there was none is sent later. Whatever the server says beyond what the bouncer interprets reaches every client of that network, and only those, once, with its source, parameters and (for clients that take them) tags unchanged.",
["inputs","histories"],"all the commands x all the parameter lists up to a length over a word list with channel lists, empty, spaced and colon-led trailing parameters x tags x server capabilities; all the numerics and unknown commands x parameter lists x sources; all sequences (up to the explored depth) of queued and direct requests by three clients, late answers and lost connections",
"Parameters are rebuilt by hand for many commands, and queued commands depend on the history; no test forwards anything but a message.",
["downstream.go","upstream.go"],[("forwarding","downstream.go handleMessageRegistered; upstream.go SendMessageLabeled, enqueueCommand, forwardMsgByID")],"lines reaching the servers; lines written to the clients")

p("C30","Service commands are taken to the letter, and status reports tell the truth",
"A command given to the service is cut into words by its documented quoting rules, for every text: quoted and escaped spaces, quotes and backslashes end up in the argument, incomplete quoting is refused and changes nothing. Every setting that network, channel and user create and update accept takes effect exactly as given, alone and together with any other, in any order: the stored record changes in those settings and in nothing else, and the connection made from it uses them. The status commands (network, channel, sasl, user, server status) report, at every point of a history, the state that holds then: which networks are connected, as which nick, with how many channels; which channels are joined, parted or detached; the account; the users, their limits and counts. A command that fails, for whatever reason, the database refusing included, changes nothing, neither what is stored nor what the bouncer does from then on; certificates it generates are the ones it shows, stores and uses.",
["inputs","histories","fault_sequences"],"all the texts up to a length over an alphabet of letters, spaces, quotes and backslashes; all the ordered pairs of settings of networks, channels and users x new, default and fully set records x ways of naming the target; all sequences (up to the explored depth) of 23 events before the status commands",
"The quoting rules and the settings combine; the tests cover nine quoting examples, and no setting, combination or status.",
["service.go","user.go","database/sqlite.go"],[("words","service.go splitWords"),("settings","service.go networkFlagSet.update, channelFlagSet.update, handleServiceUserUpdate"),("status","service.go handleService*Status")],"replies of the service; the database; lines reaching the servers")

p("C31","The configuration file means what the manual says, and mistakes are refused",
"Loading a configuration file gives, for every combination and order of directives, exactly the settings the manual describes: each directive present takes effect with the value given (quoting included), each absent one has its default, and directives don't disturb each other; http-ingress follows the hostname when not set; listen and auth accumulate, explicit auth replaces the default; accept-proxy-ip accepts exactly the addresses of the given ranges (localhost standing for both loopback ranges) and none by default. Unknown directives, duplicates, wrong numbers of parameters, unknown drivers, drivers with a missing or superfluous source, malformed ranges, patterns, durations, numbers and booleans, two ranges of the same family: all are refused, wherever in the file, and never ignored.",
["configurations","inputs"],"all the files of up to three directives, each in any of its forms and kinds of mistake, in every order, and all the complete files with any two directives varied",
"A wrong default or a mistake silently ignored only shows with one combination of directives; no test loads a configuration file.",
["config/config.go"],[("load","config/config.go Load"),("defaults","config/config.go Defaults"),("ranges","config/config.go IPSet.Contains")],"the loaded settings; refusal")
p("C32","The programs serve what they are asked to, reload safely, and report outcomes",
"Started with any documented listening address, alone, among others or from the command line, the bouncer serves on it what the manual says (IRC asking for a password, administration on a socket only its owner may use, WebSocket, uploads, ident, metrics, profiling), with TLS where it says so, on the documented default port; it refuses to start with plain text, metrics or profiling on anything but localhost, TLS listeners without a certificate, unknown schemes or an invalid configuration. On SIGHUP it takes over every reloadable setting, the MOTD and the TLS certificate, and drops the settings no longer given; an invalid configuration, missing file or broken key leaves everything as it was, and later reloads still work. On SIGINT and SIGTERM it closes its clients and exits with success, having stored everything: after a restart a client gets the messages it missed, once each and in order, and none again. sojudb creates users and changes passwords as told, and nothing when it fails; sojuctl passes its arguments on unchanged, whatever their characters, can't be made to run another command, prints replies and errors as they are, and exits with success exactly when the command succeeded.",
["configurations","histories","inputs"],"all listening schemes x positions; all ordered pairs of reloadable settings and mistakes across a reload; all sequences (up to the explored depth) of tool invocations",
"Reloads combine any two configurations, and the programs are never run by the tests.",
["cmd/soju/main.go","cmd/sojuctl/main.go","cmd/sojudb/main.go","config/config.go","server.go"],[("listen","cmd/soju/main.go main"),("reload","cmd/soju/main.go loadConfig, server.go SetConfig"),("sojuctl","cmd/sojuctl/main.go run, quoteWords"),("sojudb","cmd/sojudb/main.go main")],"what is served on the sockets; exit statuses; the database")

p("C33","Connections to servers are authenticated as configured",
"Unless a network is configured as plain text, nothing is sent to a server before a TLS handshake has authenticated it: without a pinned fingerprint its certificate must be currently valid, chain to a trusted authority and be issued for the host name in the address, which is asked for by name; with a pinned fingerprint (SHA-256 or SHA-512, in any spelling) the server's own certificate - not one it merely sends along - must be the pinned one, and nothing else matters. Each connection is judged anew with the settings of that moment, including after updates, restarts and certificate expiry; invalid fingerprints are refused without effect. When a pinned server is refused, the status tells the fingerprint of the certificate it presented. With a client certificate, generated for any kind of key, exactly the certificate whose fingerprints the service announces is presented and SASL EXTERNAL is used; it survives restarts, is replaced or removed by the commands which do so, and is never shown to other networks.",
["configurations","histories"],"all certificate chains x pinned fingerprints x ways to authenticate x TLS versions; all histories of certificate and setting changes to a depth",
"Whether an attacker is refused depends on every combination of what he presents, what is pinned and what changed before; no test connects with TLS.",
["upstream.go","service.go","certfp.go","user.go","database/sqlite.go"],[("verification","upstream.go connectToUpstream"),("pinning","service.go networkFlagSet.update"),("client certificate","certfp.go generateCertFP, service.go handleServiceCertFPGenerate")],"what TLS servers see of the bouncer's connections; the network status; the announced fingerprints")
p("C34","Logins are granted exactly as an external authentication server decides",
"With external authentication a client is logged in exactly when the server says so about the credentials the client gave: with HTTP, on status 200 and no other, for one request carrying exactly the name and password in its Authorization header; with OAuth 2.0, when the introspection of exactly the given token answers 200 with an active token and a user name, and that name is the one the client claims, if it claims one. Errors, unexpected or malformed answers and silence never log anybody in, and a silent server doesn't keep other clients waiting. The client is then the user the server vouched for, whatever suffixes it gave, and nobody else; only an enabled administrator may act as another, existing user. Unknown users are created - enabled and not administrators - and disabled ones enabled only with enable-user-on-auth, and only after success; otherwise they are refused and no account changes. Later attempts on a connection don't grant more than they are worth. An OAuth 2.0 server is used only if its metadata is complete and it supports the configured client authentication; the offered SASL mechanisms are those that can work.",
["inputs","histories","fault_sequences"],"all answers x users x ways to log in x names and secrets; all sequences of attempts on a connection to a depth; silence of the server",
"The decision depends on what the remote server answers to what was sent, in combination with the accounts and options; tests only use the internal driver.",
["auth/http.go","auth/oauth2.go","auth/auth.go","downstream.go","server.go","user.go"],[("http","auth/http.go AuthPlain"),("oauth2","auth/oauth2.go newOAuth2, AuthOAuthBearer"),("login","downstream.go handleMessageUnregistered, register"),("accounts","server.go getOrCreateUser, user.go run")],"the answers to login attempts, whose networks the client sees, the requests made to the server, the accounts in the database")

p("C35","WebSocket connections carry the same protocol as plain ones",
"A client on a WebSocket gets exactly what a client on a plain connection gets for the same actions, and the server gets the same from it, apart from bytes which aren't UTF-8, which a text frame cannot carry. Each frame is exactly one message, in both directions, however it is fragmented, whatever pings come in between and in whatever pieces it arrives; a frame can never make the bouncer or a server see several messages, and invalid or oversized frames end that connection only. A client which doesn't answer, doesn't read, doesn't finish registering or ignores the closing handshake is dropped, without delaying what caused it, the user's other clients or anybody else. The handshake succeeds only for well-formed requests from the bouncer's own origin or a configured one, and the address a client is known by is the one of the TCP peer unless that is a configured trusted proxy.",
["inputs","histories","fault_sequences"],"all sequences of actions to a depth on both kinds of connections; all fragmentations of a message and kinds of frames; closing x numbers and kinds of unresponsive clients; handshake requests x origins; proxies x headers",
"The WebSocket transport has its own framing, limits, deadlines and closing handshake between the network and everything else; no test opens a WebSocket.",
["conn.go","server.go","downstream.go"],[("websocket","conn.go websocketIRCConn"),("handshake","server.go ServeHTTP, parseForwarded"),("close","conn.go conn.Close, Shutdown")],"the frames the client receives, the lines the server and other clients receive, the HTTP answer, how long actions take, the logged client address")

p("C36","Networks named at login are added when they exist, and only then",
"When a client names a network the user doesn't have, it is added to that user's networks exactly when the login is right, a server with a valid certificate for that name answers at that address, the nickname can be used on a network and the user's limit isn't reached: once, enabled, with the given nickname and nothing else, and announced to the user's other clients. The client is then bound to it, it connects, and messages go both ways. Otherwise the client is refused and disconnected and nothing is stored. A network the user already has is used as it is, without any check. Nobody without an account can make the bouncer connect anywhere, nothing but a handshake is sent to a server which isn't trusted, other users' networks are out of reach, and a silent server neither loses messages nor holds up other users.",
["inputs","histories","fault_sequences"],"all ways to log in x names x limits x accounts; all certificate chains; nicknames; all histories of logins, deletions, restarts and outages to a depth; numbers of simultaneous logins to a silent server",
"Whether a login changes the account depends on credentials, existing networks, limits and what a remote server presents, in combination; no test logs in with an unknown network.",
["downstream.go","user.go"],[("load","downstream.go loadNetwork, sanityCheckServer, unmarshalUsername"),("create","user.go createNetwork, canEnableNewNetwork, checkNetwork")],"the answer to the login, the user's networks in the database, what other clients are told, the connections made and what is sent on them")

import sys
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
