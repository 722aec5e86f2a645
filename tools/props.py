"""The properties: what properties.jsonl and MANIFEST.json are written from."""

NOTE = (
    "Decided from the MIR of /repo's current source on every run; nothing is executed. Trusted: rustc's MIR, the models of "
    "external crates (cdnsa/models.py), and the type-only stub for the absent jf-signature dependency. Loops run to a "
    "fixpoint; values are provenance terms, so arithmetic beyond constants, ranges and comparisons is not decided."
)

PROTO = "cdn-proto/src/"
BROKER = "cdn-broker/src/"
MARSHAL = "cdn-marshal/src/"
CLIENT = "cdn-client/src/"

P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note))


def na(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))


prop("C01", "The marshal grants permits only to fresh, verified, whitelisted keys",
     "The marshal issues a permit only after it has checked, for the same login message, that the signature over the message's timestamp verifies under the presented public key in the user login domain, that the timestamp is at most five seconds old and not in the future by a clock read after the message arrived, and that this very key is on the whitelist. No response ever carries a permit otherwise.",
     ["inputs", "fault_sequences"],
     "all byte strings a client can send as its login, all clock readings, every failing or succeeding answer of the discovery service, every control-flow path to the point where a permit is issued",
     "The tests log in with honest clients only; a path that skips one check for one kind of input is invisible to them.",
     [PROTO + "connection/auth/marshal.rs", MARSHAL + "handlers.rs"],
     [("login verification before the permit is issued", PROTO + "connection/auth/marshal.rs")],
     "Every path from the start of a marshal session to the permit-issuing call is enumerated abstractly; each must carry the verification, both freshness comparisons and a positive whitelist answer for the same key value.")

prop("C02", "A permit belongs to the verified key, the chosen broker and its client",
     "A permit is issued for the canonical encoding of the key that was just verified, for the broker the marshal selected as least loaded, with a lifetime of at most thirty seconds and at most once per login. It is sent only on the connection that logged in, together with the public address of exactly that broker.",
     ["inputs", "histories"],
     "all login messages, all sets of brokers the discovery service can return, all paths through a marshal session",
     "Tests run one broker and one honest client, so permits bound to the wrong broker, address, key or connection cannot be told apart.",
     [PROTO + "connection/auth/marshal.rs"],
     [("operands of the permit-issuing call and of the granted response", PROTO + "connection/auth/marshal.rs")],
     "The origin of each operand is traced through the program; equality is by provenance, not by sampled value.")

prop("C03", "A broker admits a user only with the user's own valid permit",
     "A user session is registered, and the user told it is admitted, only after the permit that this connection presented was successfully redeemed at the discovery service for this broker. The session is registered under exactly the key the redemption returned, on the connection that presented it, after the client announced its subscriptions on that connection.",
     ["inputs", "fault_sequences", "schedules"],
     "all messages a connecting user can send, all answers of the discovery service, every path to the insertion into the user session table, with and without global permits",
     "Tests inject users into the broker directly or log in honestly; no test presents a wrong, foreign or missing permit on each path.",
     [PROTO + "connection/auth/broker.rs", BROKER + "tasks/user/handler.rs", BROKER + "connections/mod.rs"],
     [("permit redemption", PROTO + "connection/auth/broker.rs"), ("registration of the session", BROKER + "connections/mod.rs")],
     "All paths from a newly accepted connection to the insertion are enumerated abstractly in both feature variants.")

prop("C04", "Brokers join only after proving the shared broker key both ways",
     "A broker session is registered only after the peer proved, on that connection and with a timestamp no older than five seconds and not in the future, that it holds this broker's own key, after this broker proved itself to the peer, and after the peer answered with success; the session is registered under the identifier from that answer. A peer that connected to us gets no signature from us before it has proved itself, and broker and user logins use different signature domains.",
     ["inputs", "fault_sequences"],
     "all messages a connecting or contacted peer can send, every path of both handshake directions",
     "Tests connect brokers in-process with honest keys; no test plays a forged, replayed, reordered or half-finished handshake.",
     [PROTO + "connection/auth/broker.rs", BROKER + "tasks/broker/handler.rs", PROTO + "crypto/signature.rs"],
     [("mutual authentication", PROTO + "connection/auth/broker.rs"), ("the two directions", BROKER + "tasks/broker/handler.rs")],
     "Both handshake directions are followed to the insertion; that the signature scheme is unforgeable is assumed.")

prop("C05", "A permit can be redeemed once, in time, and only for its own broker",
     "In both discovery backends a permit is a random number from the operating system's entropy source that is never a response code, and it is stored before it is returned, together with exactly the given key, the given broker (unless permits are global) and the requested lifetime. Redeeming it reads and removes that stored entry in one atomic step, looks only for the presented permit of the asking broker, returns the stored key, and never returns an expired one.",
     ["histories", "inputs", "schedules"],
     "all histories of issuing and redeeming permits at any number of brokers and marshals, all permits, keys, brokers and lifetimes",
     "No test lets a permit expire, redeems it twice concurrently, or redeems it at another broker, and the Redis backend is not tested at all.",
     [PROTO + "discovery/redis.rs", PROTO + "discovery/embedded.rs"],
     [("permits in Redis", PROTO + "discovery/redis.rs"), ("permits in the embedded database", PROTO + "discovery/embedded.rs")],
     "Each Redis command and parsed SQL statement is checked with the origin of every key and bound value, on every path; that Redis and SQLite execute their commands as documented is assumed.")

prop("C06", "Response codes mean the same to every sender and reader",
     "A response carries 0 only for a rejection, 1 only for an admission by a broker, and a granted permit otherwise; the marshal answers every login it received with exactly one response. A client takes only codes above 1 for permits, presents its permit only to the broker named in the same response, and keeps a connection only if that broker answered 1 and its subscriptions were sent.",
     ["inputs", "fault_sequences"],
     "all responses of the peer and the discovery service, all paths of marshal, broker and client logins",
     "Tests cover the successful path; a code that means different things to sender and reader on another path stays unseen.",
     [PROTO + "connection/auth/marshal.rs", PROTO + "connection/auth/broker.rs", PROTO + "connection/auth/user.rs", CLIENT + "lib.rs"],
     [("responses", PROTO + "connection/auth/marshal.rs"), ("reading them", PROTO + "connection/auth/user.rs")],
     "Value ranges of every constructed and every accepted code are derived along all paths.")

prop("C07", "A stalling peer cannot hold up a login or a transport handshake",
     "Every wait for a peer or for the discovery service before a session is registered ends within five seconds, at the marshal and at the broker for users and for brokers in both directions. Every wait while a network connection is being set up is bounded as well, by a deadline of at most five seconds or, for the QUIC handshake, by that transport's idle timer.",
     ["fault_sequences", "schedules"],
     "every point at which a peer or the discovery service can stop responding during connection setup and login",
     "Tests use responsive peers; a missing deadline only shows with a peer that stalls at that exact point.",
     [PROTO + "connection/protocols/quic.rs", PROTO + "connection/protocols/tcp.rs", PROTO + "connection/protocols/tcp_tls.rs", BROKER + "tasks/user/handler.rs", BROKER + "tasks/broker/handler.rs", MARSHAL + "handlers.rs"],
     [("deadlines around logins", MARSHAL + "handlers.rs"), ("deadlines around handshakes", PROTO + "connection/protocols/tcp_tls.rs")],
     "The tightest enclosing deadline of every wait is computed along all paths; DNS resolution and the in-process transport are outside.")

prop("C08", "Accepting connections never waits for an accepted peer",
     "Between two accepts, the marshal and the broker never wait for anything that an already accepted peer controls: handshakes, logins and sessions run separately for each connection. The transports' accept operations do not perform the handshake either.",
     ["schedules", "fault_sequences"],
     "every accepted peer that stalls at any point, every path around the accept loops",
     "Tests connect well-behaved peers, so a handshake inside the accept loop goes unnoticed.",
     [MARSHAL + "lib.rs", BROKER + "tasks/user/listener.rs", BROKER + "tasks/broker/listener.rs", PROTO + "connection/protocols/tcp_tls.rs"],
     [("accept loops", BROKER + "tasks/user/listener.rs"), ("accept of each transport", PROTO + "connection/protocols/tcp_tls.rs")],
     "Every wait in the accept loops is checked for dependence on an accepted connection.")

prop("C09", "Only whitelisted users get in and stay",
     "Replacing the whitelist makes exactly the given users the list, in one atomic step. A check answers true only for a listed user or when no list is set, and false only for a user who is definitely not on a list that is set; a failed lookup is an error, not an answer. About once a minute each broker checks every connected user, and disconnects exactly those for whom the check answered false.",
     ["histories", "inputs", "fault_sequences"],
     "all lists and users, all interleavings of replacing and checking the list, every failing answer of the discovery service, all sets of connected users",
     "Tests set one list and check one user on the embedded backend; the Redis backend and the brokers' periodic check are not tested.",
     [PROTO + "discovery/redis.rs", PROTO + "discovery/embedded.rs", BROKER + "tasks/broker/whitelist.rs"],
     [("whitelist storage", PROTO + "discovery/redis.rs"), ("periodic check", BROKER + "tasks/broker/whitelist.rs")],
     "Commands, statements and their operands are enumerated on every path; the periodic check's loop is followed to a fixpoint.")

prop("C10", "The broker registry lists live brokers and selection picks the least loaded",
     "A heartbeat registers exactly the broker that sends it, for the limited time it asks for, with the connection count it reports. Every heartbeat reports this broker's current number of users and is attempted before the previous one's lifetime is over. The list of other brokers holds every live registered broker except the asking one; selecting a broker returns one whose connections plus outstanding permits no other live broker undercuts; a broker's identifier reads back from the registry as it was written.",
     ["histories", "inputs"],
     "all sets of registered brokers, loads and permits, all identifiers the registry can hold, every path of both discovery backends",
     "Tests register one or two brokers in the embedded backend; ties, expired brokers and the Redis backend are not tested.",
     [PROTO + "discovery/redis.rs", PROTO + "discovery/embedded.rs", PROTO + "discovery/mod.rs", BROKER + "tasks/broker/heartbeat.rs"],
     [("registry in Redis", PROTO + "discovery/redis.rs"), ("registry in the embedded database", PROTO + "discovery/embedded.rs"), ("heartbeat", BROKER + "tasks/broker/heartbeat.rs")],
     "Commands, parsed SQL and the selection loop's comparisons are checked on every path. Known finding: Redis never writes the permit counter it reads.")

prop("C11", "Direct messages go to their recipient's place, once, unchanged, one hop",
     "A direct message for a user placed at this broker is handed to that user's session if there is one. Otherwise it is handed to the broker the user is known to be at, only if it came from a user: brokers' messages are never sent on to brokers. It is handed to nobody else, at most once, byte for byte as received, and with nobody to hand it to it is dropped; routing a message never ends the sender's session, whatever state the recipient's is in.",
     ["inputs", "histories", "schedules"],
     "all messages, recipients, contents of the location and connection tables, every path from receipt to hand-over on user and broker sessions",
     "Tests send a few direct messages over one or two brokers; a route taken in a rare table state, or a message rebuilt on one path only, goes unnoticed.",
     [BROKER + "tasks/user/handler.rs", BROKER + "tasks/broker/handler.rs", BROKER + "connections/mod.rs", BROKER + "connections/direct.rs"],
     [("routing", BROKER + "tasks/broker/handler.rs"), ("user messages", BROKER + "tasks/user/handler.rs")],
     "Every path of both receive loops is followed with the looked-up location and session as symbolic values.")

prop("C12", "Broadcasts reach every interested connected party exactly once, and nobody else",
     "A broadcast is handed once, byte for byte as received, to each connected user that is subscribed to one of its valid topics and, if it came from a user, to each connected broker that announced interest in one of them. A broker's broadcast is never sent on to brokers. Nobody else gets it, and a failing recipient does not keep it from the others or end the sender's session.",
     ["inputs", "histories", "schedules"],
     "all messages and topic lists, all interest tables and connected parties, every path from receipt to hand-over on user and broker sessions",
     "Tests broadcast on one or two topics with all parties healthy; a recipient left out or served twice for one combination of topics is not seen.",
     [BROKER + "tasks/user/handler.rs", BROKER + "tasks/broker/handler.rs", BROKER + "connections/mod.rs", BROKER + "connections/broadcast/mod.rs", BROKER + "connections/broadcast/relational_map.rs", PROTO + "def.rs"],
     [("routing", BROKER + "tasks/broker/handler.rs"), ("interested parties", BROKER + "connections/mod.rs")],
     "One arbitrary interested party is followed through collections and loops; that each valid topic's subscribers are the right ones is the relational map's property.")

prop("C13", "A session's messages act only for itself, and only after its hook agreed",
     "A frame received from a user or a broker has an effect on the broker's tables only after that session's own message hook, told the session's own identity, answered that the message is to be processed. Subscribe and unsubscribe change only the sending user's own subscriptions and topic announcements only the sending broker's, each once and by exactly the recognised topics of that message; tables of user locations are accepted from brokers only and merged as received. A user's message of any other kind ends its session; a session's messages disconnect nobody except a recipient that could not be written to.",
     ["inputs", "histories", "schedules"],
     "all messages of all kinds from all sessions, all hook outcomes",
     "The tests send well-formed messages of the expected kind with a hook that accepts everything.",
     [BROKER + "tasks/user/handler.rs", BROKER + "tasks/broker/handler.rs", BROKER + "connections/mod.rs", "cdn-proto/src/def.rs"],
     [("users' messages", BROKER + "tasks/user/handler.rs"), ("brokers' messages", BROKER + "tasks/broker/handler.rs")],
     "What an operation on the tables does is taken from its interpretation, not from its name.")

prop("C14", "Subscriptions change exactly as asked and both indexes always agree",
     "For every user and every broker a topic is in the party's own set of topics exactly when the party is in the topic's set of interested parties. Subscribing adds exactly the named topics for exactly that party, unsubscribing removes exactly them, joining sets exactly the initial ones, and no operation changes anyone else's. Lookups of interested parties and of a party's connection answer exactly from these tables.",
     ["inputs", "histories"],
     "all contents of the tables, all parties, topics, topic lists and operation histories",
     "The tests call the map with a few keys and values; an entry left in one index after an unusual sequence is only visible as a lost or a stray message later.",
     [BROKER + "connections/mod.rs", BROKER + "connections/broadcast/mod.rs", BROKER + "connections/broadcast/relational_map.rs"],
     [("two indexes of subscriptions", BROKER + "connections/broadcast/relational_map.rs"), ("operations", BROKER + "connections/mod.rs")],
     "Every operation preserves agreement from every agreeing state of one arbitrary party and topic, which is an induction over all histories of these tables.")

prop("C15", "A session that ends or is replaced is stopped and leaves nothing behind",
     "When a user or broker is removed, or replaced by a new session of the same identity, the old session's task is stopped, its subscriptions are gone and, for a user, it is no longer recorded as being here. A new session is registered with its own connection and task, its own initial subscriptions only and, for a user, as being here, which other brokers will be told. Nobody else's session or location changes, and the record of a user that is connected to another broker survives.",
     ["inputs", "histories"],
     "all contents of the tables and all histories of joins, replacements and removals",
     "Tests connect the same user twice and look at the connection only; a topic, a location or a running task left behind goes unnoticed.",
     [BROKER + "connections/mod.rs", BROKER + "connections/versioned_map.rs", BROKER + "connections/broadcast/relational_map.rs"],
     [("sessions", BROKER + "connections/mod.rs"), ("locations", BROKER + "connections/versioned_map.rs")],
     "Every operation is followed from every state of one arbitrary party.")

prop("C16", "The newest known location of a user wins, and a user that moved is disconnected",
     "Merging a table of user locations received from a broker takes over, for each user, exactly those entries that have a higher version, or the same version and a higher identity of the sender than ours, or that are not known here. A user of ours whose entry is taken over with another place, or none, is disconnected and leaves no subscriptions; a change of ours that lost is not sent any more. An entry that loses changes nothing and disconnects nobody, and a user we still know to be here stays connected.",
     ["inputs", "histories", "schedules"],
     "all local and received entries, versions and identities, all orders in which tables arrive",
     "Tests merge two maps with a handful of entries; a tie, a tombstone or a change pending at the same moment is not covered.",
     [BROKER + "connections/versioned_map.rs", BROKER + "connections/mod.rs", BROKER + "connections/direct.rs"],
     [("merge", BROKER + "connections/versioned_map.rs"), ("disconnecting users that moved", BROKER + "connections/mod.rs")],
     "All relations of versions and identities and all kinds of entries are enumerated symbolically for one arbitrary user.")

prop("C17", "What a broker is subscribed to here is what it last announced",
     "Merging a table of topics announced by a connected broker leaves that broker subscribed to a topic exactly if the newest announcement for it, by version and then identity, says so; older ones change nothing. Only that broker's subscriptions change, what we announce ourselves does not, and a broker without a session gets no subscriptions.",
     ["inputs", "histories", "schedules"],
     "all known and announced entries, versions and identities, all orders of announcements",
     "Tests apply one or two announcements in order.",
     [BROKER + "connections/mod.rs", BROKER + "connections/versioned_map.rs", BROKER + "connections/broadcast/mod.rs"],
     [("merge of topics", BROKER + "connections/mod.rs"), ("versions", BROKER + "connections/versioned_map.rs")],
     "All relations of versions and all kinds of entries are enumerated symbolically for one arbitrary broker and topic.")

prop("C18", "Every local change of a user's location is versioned and told exactly once",
     "Whenever a user's location changes by a local event it gets a version that wins over everything told before and is marked to be sent. Collecting the changes hands out every marked entry as it is in the table, under our identity, and unmarks it; it hands out nothing else and loses nothing from the table but removed entries. The complete copy given to a new broker is complete.",
     ["histories", "inputs"],
     "all contents of the table and the set of marked users, all histories of local changes and collections",
     "Tests collect changes once or twice; a version reused after a collection, or a mark lost, makes brokers disagree for good.",
     [BROKER + "connections/versioned_map.rs", BROKER + "connections/mod.rs"],
     [("versions and changes", BROKER + "connections/versioned_map.rs"), ("what is handed out", BROKER + "connections/mod.rs")],
     "Every operation is followed from every state of one arbitrary user's entry.")

prop("C34", "Other brokers are told exactly the topics that our users want",
     "After each collection of changes, what was told to other brokers about a topic is whether some connected user here is subscribed to it. Each change is handed out once, with a version that wins, nothing unchanged is handed out as changed, and the complete copy given to a new broker is what was told to the others.",
     ["histories", "inputs"],
     "all subscriptions, all previously told topics, all histories of changes and collections",
     "Tests subscribe and unsubscribe once between collections; a topic that is dropped and wanted again in one interval, or the last subscriber leaving, is not tested.",
     [BROKER + "connections/mod.rs", BROKER + "connections/broadcast/mod.rs", BROKER + "connections/versioned_map.rs"],
     [("collection of changes", BROKER + "connections/mod.rs"), ("what was told", BROKER + "connections/broadcast/mod.rs")],
     "Every operation is followed from every consistent state of one arbitrary topic.")

prop("C35", "The reported numbers of users and brokers are the numbers connected",
     "The gauges of connected users and brokers go up by one exactly when a session is added to the table and down by one exactly when one is taken out, for joins, replacements and removals alike, so that they always equal the size of the tables.",
     ["histories"],
     "all histories of joins, replacements and removals",
     "No test reads the gauges.",
     [BROKER + "connections/mod.rs", BROKER + "metrics.rs"],
     [("gauges", BROKER + "connections/mod.rs")],
     "Every operation's change of the tables is compared with its changes of the gauges.")

prop("C36", "What is registered is what is served, and what fails is removed",
     "A session enters the tables under the identity that was verified, with the connection it was verified on and a task that serves that very identity and connection; the task can have no effect before the registration is in place. Initial subscriptions are the recognised topics the user asked for. When the session's task ends, its own entry is removed, and a recipient that cannot be written to is removed, itself and nobody else.",
     ["inputs", "schedules", "fault_sequences"],
     "all logins, all interleavings of a login with the session's own messages, all send and receive failures",
     "A mix-up of identities or a message handled before the registration needs a particular interleaving; tests inject sessions directly.",
     [BROKER + "tasks/user/handler.rs", BROKER + "tasks/broker/handler.rs", BROKER + "tasks/user/sender.rs", BROKER + "tasks/broker/sender.rs", BROKER + "connections/mod.rs", PROTO + "def.rs"],
     [("logins", BROKER + "tasks/user/handler.rs"), ("broker logins", BROKER + "tasks/broker/handler.rs"), ("failed sends", BROKER + "tasks/user/sender.rs")],
     "The table's write lock is followed from the spawn of the session's task to its registration.")

prop("C39", "A session that was replaced no longer acts on its successor",
     "What a session's task does under its own identity (subscribing, unsubscribing, applying a broker's topic sync, removing the session when it ends) it does only if its connection is still the one registered for that identity, as checked under the very lock under which it acts. A party that could not be written to, or a joining broker that could not be told the current state, is removed only if the connection that failed is still the one registered for it.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of a session's messages and end with its replacement or removal, all failing sends and the reconnections in between",
     "The old task has to be stopped between its last message and the lock while the same party logs in again; no test replaces a session while it is at work.",
     [BROKER + "tasks/user/handler.rs", BROKER + "tasks/broker/handler.rs", BROKER + "tasks/user/sender.rs", BROKER + "tasks/broker/sender.rs", BROKER + "connections/mod.rs"],
     [("user sessions", BROKER + "tasks/user/handler.rs"), ("broker sessions", BROKER + "tasks/broker/handler.rs"), ("failed sends", BROKER + "tasks/user/sender.rs")],
     "A comparison of connections counts from where it is made to where the guard under which it was made is dropped.")

prop("C19", "Brokers tell each other of every change, and a new broker of everything",
     "In every round of the sync task each change of a user's location and of local topic interest since the last round is sent to every broker that is connected; a change is not forgotten before that, and the task never ends. A broker that joins is sent, after it is registered as connected, the complete tables of user locations and of topic interest (each unless it is empty); if that cannot be done the broker is removed. Nothing but these tables is sent as one.",
     ["histories", "fault_sequences", "inputs"],
     "all histories of changes, joins and leaves, all sets of connected brokers, every failing send or encoding, every path of the sync task and of a broker's arrival",
     "Tests exchange syncs by hand between two maps; a change drained but sent to only some brokers, or a snapshot taken before the broker is registered, loses state for good and only with unlucky timing.",
     [BROKER + "tasks/broker/sync.rs", BROKER + "tasks/broker/sender.rs", BROKER + "tasks/broker/handler.rs", BROKER + "connections/mod.rs"],
     [("state exchange", BROKER + "tasks/broker/sync.rs"), ("arrival of a broker", BROKER + "tasks/broker/handler.rs")],
     "One arbitrary connected or joining broker is followed through the sync task and every task a broker joins in.")

prop("C33", "Every broker keeps looking for, and dials exactly, the brokers it misses",
     "In every round in which the registry could be read, a broker dials each registered broker whose identifier is higher than its own and to which it has no session, once, at its private endpoint, and handles the connection as one it dialled itself. It does not dial brokers it has a session with or whose identifier is lower (which dial it). Dialling happens in tasks of their own, so that a broker that does not answer holds up nothing else, and the rounds never end.",
     ["histories", "fault_sequences", "inputs"],
     "all registry contents and sets of connected brokers, every failing or silent peer, every path of the heartbeat task and the tasks it spawns",
     "Tests run at most two brokers that are up; a broker skipped because an earlier one did not answer, or both sides dialling each other, is not tested.",
     [BROKER + "tasks/broker/heartbeat.rs", BROKER + "connections/mod.rs"],
     [("dialling", BROKER + "tasks/broker/heartbeat.rs"), ("connected brokers", BROKER + "connections/mod.rs")],
     "Three arbitrary brokers (missing, connected, lower) are followed through a round and the tasks it spawns.")

PRO = "cdn-proto/src/connection/protocols/"
LIM = "cdn-proto/src/connection/limiter/"

prop("C20", "Every message crosses a stream as one exact frame, or the stream ends",
     "For each message handed to a connection exactly its length, as four bytes with the most significant first, and then exactly its bytes are written. The receiving side reads a length, refuses one above an eighth of the 32 bit range before it makes a buffer or reserves memory, reads exactly that many bytes and hands on exactly these. Once a part of a frame could not be written or read, or was given up after a deadline, nothing further is written to or read from that stream; both directions of a connection belong to the same network connection.",
     ["inputs", "fault_sequences", "crash_points"],
     "all messages of all lengths, failures and timeouts at every point of a frame, all transports",
     "A half-written frame followed by another one shifts every later message of that stream; it takes a timeout at one particular point.",
     [PRO + "mod.rs", PRO + "quic.rs", PRO + "tcp.rs", PRO + "tcp_tls.rs"],
     [("framing", PRO + "mod.rs"), ("streams of the transports", PRO + "quic.rs")],
     "Lengths are symbolic: the length written has to be the length of the term that is written next.")

prop("C21", "Received messages are covered by permits of the shared memory pool",
     "When a memory pool is configured, a message's buffer is made only after a permit for exactly its announced length was taken from the pool. The permit is held together with the bytes and every copy of them, and given back only when the last copy is gone. All connections of a broker or marshal, accepted and dialled, on every transport, draw from one pool of the configured size.",
     ["inputs", "histories", "schedules"],
     "all sequences of messages on all connections, all lifetimes of the copies of a message",
     "Exceeding the pool needs many large messages that are queued at the same time; a permit that is returned too early or is too small is invisible to a test with one small message.",
     [LIM + "mod.rs", LIM + "pool.rs", PRO + "mod.rs", BROKER + "lib.rs", BROKER + "tasks/broker/heartbeat.rs"],
     [("reservation", PRO + "mod.rs"), ("counted bytes", LIM + "pool.rs"), ("pool", LIM + "mod.rs")],
     "The value that is handed on has to contain the permit's result; the fields of counted bytes are private.")

prop("C22", "A stalled stream is given up, and a connection's tasks end with it",
     "Once a message's length has been read its bytes have to arrive within five seconds; writing a message, flushing and closing are bounded by five seconds as well, and every message is flushed before the next is taken. When the task that reads or writes a stream ends, those that use the connection are told, because nobody else holds its end of the queue. When the last handle of a connection is dropped, both tasks are stopped.",
     ["fault_sequences", "schedules"],
     "all peers that stop reading or writing at any point, all orders in which handles are dropped",
     "A peer that stalls in the middle of a frame, or a connection dropped while its task waits, does not happen between two well-behaved ends on a local machine.",
     [PRO + "mod.rs", PRO + "quic.rs", PRO + "tcp.rs", PRO + "tcp_tls.rs"],
     [("tasks of a connection", PRO + "mod.rs")],
     "Waiting for the first byte of the next message is not bounded, by design.")

prop("C23", "A connection keeps messages in order, once each, and soft close waits",
     "Messages are written in the order in which they were queued and received in the order in which they were read, each exactly once; sending succeeds only if the message was queued, and a message received is exactly the next frame. A soft close returns success only after every message queued before it was written and the stream was closed, and it returns an error rather than waiting forever when the connection fails.",
     ["schedules", "inputs", "fault_sequences"],
     "all sequences of messages, all interleavings of senders, receivers and the connection's tasks, failures at every point",
     "Reordering and lost or doubled messages show under load or with slow receivers only; a soft close that hangs needs a failure between queueing and writing.",
     [PRO + "mod.rs", BROKER + "tasks/user/handler.rs", BROKER + "tasks/broker/handler.rs"],
     [("queues", PRO + "mod.rs")],
     "The order within a queue is the queue library's; that one task serves each queue, item after item, is what is shown.")

CLI = "cdn-client/src/lib.rs"

prop("C28", "The client keeps one connection up, and none once it is closed",
     "At most one task of a client connects at a time; it retries, with a deadline for each attempt and a pause after each failure, until it has a connection or the client is closed, and only a connection it has just made is kept. Every call uses the current connection, at most once, and reports success only if that worked; a connection that failed is given up so that the next call reconnects, one that did not fail is kept. A call that waits for the client to be connected returns success only when it is; closing forbids connecting, stops an attempt under way and drops the connection, and no connection is ever kept after that.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of calls, failures, reconnections and closing, failures and timeouts at every point of an attempt",
     "Two reconnections at once, a connection that survives closing, or a client that stays disconnected depend on where exactly a failure or a close hits; the client has no unit tests.",
     [CLI],
     [("reconnection", CLI), ("calls", CLI), ("closing", CLI)],
     "Shown from: who holds the one permit, under which lock the connection is stored, and what has been read of the closed flag since.")

prop("C29", "The client's subscriptions are those its broker knows, across reconnections",
     "Subscribing or unsubscribing names to the broker only topics it was called with, and all of them that change anything; what the client remembers changes exactly as the broker was told, only if sending succeeded, and success means that the topics are subscribed (or not) afterwards. Every new connection is told exactly the remembered subscriptions, read while nobody can change them on the connection it replaces.",
     ["inputs", "schedules", "fault_sequences"],
     "all sets of topics, all interleavings of (un)subscribing with a reconnection, all send failures",
     "A subscription lost or kept by mistake during a reconnection stays wrong silently until the next change; it takes a change exactly between two steps of reconnecting.",
     [CLI, PROTO + "connection/auth/user.rs"],
     [("subscriptions", CLI), ("announcement on login", PROTO + "connection/auth/user.rs")],
     "One arbitrary topic is followed through the set under its lock, the message and the lock that guards the connection.")

TLS = PROTO + "crypto/tls.rs"
prop("C24", "Brokers, marshals and clients run with what they were configured with",
     "A broker listens for users at its public bind endpoint and for other brokers at its private one, knows itself, registers and versions its state under its two advertise endpoints (with the placeholder for its address replaced), and uses the discovery endpoint, key, hooks, certificate authority and memory pool it was configured with; what connects to its public listener is only ever handled as a user, what connects to the private one as a broker. Likewise for the marshal's endpoint, discovery, authority and pool and for the client's marshal endpoint, key and first subscriptions.",
     ["inputs"],
     "all configurations",
     "The tests configure all endpoints of a component alike, on one machine; swapped or forgotten settings of the same type compile and show only where public and private networks differ.",
     [BROKER + "lib.rs", MARSHAL + "lib.rs", CLI, BROKER + "tasks/user/listener.rs", BROKER + "tasks/broker/listener.rs"],
     [("setting up a broker", BROKER + "lib.rs"), ("setting up a marshal", MARSHAL + "lib.rs"), ("setting up a client", CLI)],
     "Each value a component is built from is traced back to the configuration fields it is computed from.")

prop("C25", "TLS clients trust only the selected authority, under one fixed name",
     "A client that dials over TLS or QUIC trusts exactly one authority, the local or the production one as its configuration says, added to an otherwise empty store; verification is never replaced, the expected server name is one fixed name, and the connection consists of the streams that the handshake was done on. Servers present a certificate for that name, not usable as an authority, signed with the key of the authority they were given (or of the local one if none was given), together with its own key. The production definitions make users connect over such a transport.",
     ["inputs", "configurations"],
     "all configurations, all certificates a peer can present, all paths to a handshake or to a listener",
     "All tests use the local authority and honest servers, so a client that trusts too much behaves the same in every one of them.",
     [TLS, PROTO + "connection/protocols/tcp_tls.rs", PROTO + "connection/protocols/quic.rs", PROTO + "def.rs", CLI],
     [("whom a client trusts", TLS), ("what a server presents", TLS), ("handshakes", PROTO + "connection/protocols/tcp_tls.rs")],
     "The verification of a chain against the given roots and name is rustls's; shown is what it is given.")

prop("C31", "A signature speaks for one key, one purpose and one message",
     "What is signed and what is verified are put together the same way from the whole namespace and the whole message, and no message of one namespace can pass as one of another. A signature is accepted only if the scheme verified exactly the given signature under the given key, and refused only if it could not be decoded or did not verify; keys and signatures are decoded in the form they are encoded in, with validation. The client's login signs the current timestamp that it sends, with its own key, in the namespace that the marshal verifies.",
     ["inputs"],
     "all keys, messages, signatures and namespaces, all bytes a peer can present as a key or signature",
     "Whether two domains can be confused, or an invalid point is let through, needs inputs crafted for it; the one test signs and verifies a single message.",
     [PROTO + "crypto/signature.rs", PROTO + "connection/auth/user.rs"],
     [("signing and verifying", PROTO + "crypto/signature.rs"), ("the client's login", PROTO + "connection/auth/user.rs")],
     "That the scheme itself (BLS in jf-signature) is unforgeable is assumed. Byte strings are followed as the sequence of pieces they are put together from.")

prop("C32", "When a task of a broker ends, the broker ends",
     "Each of a broker's tasks (heartbeat, sync, whitelist, both listeners) runs until the broker stops or, for a listener, until accepting fails. The main loop notices the end of any of them, whether by return or panic, waits for nothing else afterwards, returns an error, and no task outlives it. The marshal's main loop ends only with an error of its listener.",
     ["schedules", "fault_sequences"],
     "all orders in which tasks can end, panics in any task, failures of either listener",
     "A broker that goes on without its heartbeat, sync or whitelist task looks healthy to every test; no test ends a task.",
     [BROKER + "lib.rs", MARSHAL + "lib.rs", PROTO + "util.rs", BROKER + "tasks/broker/sync.rs", BROKER + "tasks/broker/whitelist.rs"],
     [("the main loops", BROKER + "lib.rs"), ("handles that end their task", PROTO + "util.rs")],
     "A handle that is dropped without aborting its task, a task nobody waits for and a second wait are each reported at their place.")

prop("C26", "What a message is encoded from is what it is decoded to",
     "Every kind of message is written as a kind of its own, and what is read as that kind is the same variant, each of its fields filled from the very field of the encoding that the same field is written to, whole and unchanged: lists keep all elements and their order. Encoding refuses only what the format cannot represent and decoding only what is not an encoding; no message small enough to be received is refused for its size, and nothing but the bytes given decides what is decoded.",
     ["inputs"],
     "all message values of every kind, all lengths of lists and payloads",
     "The tests encode one tiny value of each kind; a limit on the size or depth of what is decoded, a truncated list or two fields that are swapped on both sides of one struct need particular values.",
     [PROTO + "message.rs"],
     [("encoding and decoding", PROTO + "message.rs")],
     "Encoder and decoder are interpreted abstractly and compared field by field; that capnp returns what was stored in a field is trusted.")

prop("C27", "Nothing a peer sends, and no failing call, makes a task panic",
     "No task that serves a connection, keeps the books or listens reaches a panic, a failing unwrap or expect, an index or slice outside its bounds, or an overflowing operation because of what a message or stream contains or because a fallible operation failed. What another broker's stored versions count is trusted; arguments of log lines are not covered.",
     ["inputs", "fault_sequences"],
     "all bytes and messages a peer can send, in every order, and all failures of the calls whose results are unwrapped",
     "A panic ends a task without the bookkeeping that ends a session, so its user stays listed; it takes an empty list, a short key or one failing call that no test sends or causes.",
     [PROTO + "message.rs", PROTO + "connection/protocols/mod.rs", BROKER + "tasks/user/handler.rs", BROKER + "tasks/broker/handler.rs", PROTO + "connection/auth/marshal.rs"],
     [("decoding", PROTO + "message.rs"), ("framing", PROTO + "connection/protocols/mod.rs"), ("user messages", BROKER + "tasks/user/handler.rs"), ("broker messages", BROKER + "tasks/broker/handler.rs")],
     "Every construct that can panic is enumerated from MIR; each is shown unreachable with a failing value, or independent of what peers send. Panics inside dependencies and allocation failure are not covered.")

prop("C30", "Locks are taken in one order, never twice, and never held while waiting",
     "No task waits for a lock that it already holds, no two tasks can take two locks in opposite orders, and no task awaits anything or blocks its thread while it holds a lock for which others block their threads.",
     ["schedules"],
     "all interleavings of all tasks, through every path that acquires a lock of the workspace",
     "A deadlock needs two tasks at two particular points; the tests run a few tasks whose schedule hardly varies.",
     [BROKER + "lib.rs", BROKER + "connections/mod.rs", CLI, PROTO + "connection/protocols/memory.rs"],
     [("the broker's connections", BROKER + "lib.rs"), ("the client's connection and subscriptions", CLI)],
     "Locks are told apart by the type of what they guard; the order of acquisition is a graph over those types and has to be free of cycles.")

prop("C37", "The production configuration fits together and the programs use it",
     "In the production configuration clients and brokers use the same signature scheme and transport towards each other, users connect over TLS, brokers connect to each other over the network, and brokers and marshals share one discovery service over the network; its message hooks let every message pass unchanged. The broker and marshal programs run this configuration with each setting taken unchanged from the option of the same name (the broker's key from the key seed, the marshal's port from the bind port). They end with an error exactly when making or running the broker or marshal did.",
     ["configurations", "inputs"],
     "all command lines, all messages a hook is shown, and all ways for the broker or marshal to fail",
     "No test runs a program or the production configuration: a setting filled from its neighbour's option, an ignored failure or a hook that skips some messages shows only in deployment.",
     [PROTO + "def.rs", BROKER + "binaries/broker.rs", "cdn-marshal/src/binaries/marshal.rs"],
     [("the production configuration", PROTO + "def.rs"), ("the broker program", BROKER + "binaries/broker.rs"), ("the marshal program", "cdn-marshal/src/binaries/marshal.rs")],
     "The programs are type-checked and analysed with the same driver as the libraries; how clap fills the options from the command line is trusted.")

prop("C38", "Traffic metrics count every message once and are served as configured",
     "The number of bytes sent grows by exactly the length of each message whose bytes were all written to a stream, the number of bytes received by that of each message that was read, each once, and neither by anything else. When the last copy of a received message is gone the time since its memory was granted is observed once as its latency, and the running latency is the average over the last round alone. Brokers and marshals serve the gathered metrics at the configured endpoint for as long as they run, and only if one was configured.",
     ["inputs", "schedules", "fault_sequences"],
     "all messages and lengths, all failures of a stream, all rounds of the running average, all configurations of the endpoint",
     "The tests never read a metric: one that misses messages of some kind or length, counts failed transfers or is added up over rounds is not seen.",
     [PROTO + "connection/protocols/mod.rs", PROTO + "connection/limiter/pool.rs", PROTO + "metrics.rs", PROTO + "connection/metrics.rs", BROKER + "lib.rs", MARSHAL + "lib.rs"],
     [("bytes sent and received", PROTO + "connection/protocols/mod.rs"), ("latency", PROTO + "connection/limiter/pool.rs"), ("serving", PROTO + "metrics.rs")],
     "A metric that could not be registered counts nothing, as in the code. The registry and encoder of the prometheus crate are trusted.")

na("N01", "Connected brokers converge on user locations and subscriptions",
   "Once connections between brokers are stable and users stop moving, all brokers agree on where every user is and who is interested in what.",
   ["histories", "schedules"], "all histories of connections, moves, subscriptions and message interleavings",
   "Tests exchange a handful of syncs.", [BROKER + "connections/versioned_map.rs", BROKER + "tasks/broker/sync.rs"],
   [("state exchange", BROKER + "tasks/broker/sync.rs")],
   "a liveness statement over unbounded interleavings of several brokers and runtime version numbers; static analysis decides the local rules it rests on (merge decisions, propagation) but not convergence itself")
na("N02", "Messages accepted for a connected recipient are delivered",
   "A message accepted from a sender is eventually delivered to every recipient that stays connected, exactly once per route.",
   ["schedules", "fault_sequences"], "all schedules and network behaviours",
   "Tests wait for a few messages.", [BROKER + "tasks/broker/handler.rs"], [("routing", BROKER + "tasks/broker/handler.rs")],
   "delivery depends on the scheduler, the kernel and the peers; no sound static argument bounds it. The routing decisions and per-connection ordering are decided separately")
na("N03", "Load is spread evenly over brokers",
   "New users are spread so that broker loads stay close to each other.", ["histories"], "all arrival and departure histories",
   "Tests run one or two brokers.", [PROTO + "discovery/redis.rs"], [("selection", PROTO + "discovery/redis.rs")],
   "a quantitative statement about counts over time, including heartbeat lag")
