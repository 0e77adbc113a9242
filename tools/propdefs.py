"""The table of properties (see props.py)."""
INP, SCH, HIS, FLT, CRA, PRG, CFG = "inputs", "schedules", "histories", "fault_sequences", "crash_points", "programs", "configurations"
TS = "typestate / event-order dataflow over MIR (abstract interpretation to a fixpoint, callees inlined)"


def fill(p, na, d):
    A, R, P, S, G = d["A"], d["R"], d["P"], d["S"], d["G"]
    p("A01", "An actor runs its hooks and handlers strictly one at a time, in lifecycle order",
      "An actor's started hook completes before any message is handled, each message taken from its mailbox is handled to "
      "completion exactly once before the next is taken, and no message is handled once the actor has been told to stop. Its "
      "stopped hook runs exactly once, after the last handler. Only the actor's own task ever runs its hooks or handlers, and a "
      "handler's result reaches the sender only after the handler completed.",
      [SCH, HIS], "every actor, every mailbox content and order, every interleaving of senders and stop requests",
      "The tests run a handful of actors with a few messages; ordering and exclusivity must hold for every schedule.",
      [A + "scheduler/mod.rs", A + "lifecycle.rs", A + "message/mod.rs"], [("ActorLoop::run", A + "lifecycle.rs"), ("ActorMessage::handle", A + "message/mod.rs")],
      TS, "Decides every path of the actor task.")
    p("A02", "Termination is complete and acknowledged",
      "A stop request marks the actor as stopping and its caller gets success only after the stopped hook has run; every caller "
      "waiting for the stop is answered, also when several stop the same actor. When an actor ends it is removed from the "
      "registry under its own id if it was tracked, and every watcher is told that this actor terminated, all after its stopped hook.",
      [SCH, HIS], "every number and order of stop requests, waiters and watchers, tracked and anonymous actors",
      "Tests stop one actor with one waiter.",
      [A + "lifecycle.rs", A + "context.rs", A + "refs/mod.rs"], [("ActorLoop::run", A + "lifecycle.rs"), ("Handler<Stop>", A + "lifecycle.rs"), ("LocalActorRef::stop", A + "refs/mod.rs")],
      TS, "Decides every path of the actor task's ending, the stop handler and the stop calls.")
    p("A03", "Every way of sending delivers the message once and reports the true outcome",
      "Sending or notifying through any kind of reference (typed local, boxed, receiver, local-or-remote, piped future, attached stream) "
      "enqueues exactly one copy of the given message at the given actor. A send returns the handler's own result, and an error "
      "when the actor could not take the message or never answered; a failed hand-over is never reported as success, and an encoding failure sends nothing.",
      [INP, SCH, FLT], "every message, reference kind, and state of the receiving actor",
      "Tests cover the successful path of a few reference kinds.",
      [A + "refs/mod.rs", A + "mod.rs", A + "message/mod.rs", A + "refs/mod.rs", A + "scheduler/mod.rs"], [("LocalActorRef::send/notify/exec", A + "refs/mod.rs"), ("ActorRef::send", A + "refs/mod.rs"), ("PipeTo", A + "refs/mod.rs")],
      TS + " with value provenance", "Decides every path of each send API.")
    p("A04", "Creating an actor succeeds only once it has started",
      "Creating an actor returns its reference only after the actor's own task confirmed that its started hook completed, and "
      "an error when it ended (or asked to stop) before that. Exactly one task is started per created actor, under the id and "
      "with the tracking that was asked for.",
      [SCH, FLT], "every actor, id, tracking mode and outcome of its started hook",
      "Tests create actors whose start succeeds.",
      [A + "system/mod.rs", A + "system/builder.rs", A + "scheduler/mod.rs", A + "lifecycle.rs", A + "mod.rs"], [("ActorSystem::new_actor", A + "system/mod.rs"), ("start_actor", A + "scheduler/mod.rs")],
      TS, "Decides every path of the constructors and of the start confirmation.")
    p("A05", "Supervision: unique children, and parents learn of and outlive their children",
      "A parent has at most one live child per id and refuses a second without starting it; the child is supervised from the moment it is started. "
      "When a child terminates the parent forgets exactly that child and its child-stopped hook is called once with that id. When an actor ends, "
      "for whatever reason, all of its children are stopped and awaited before its own parent is told, exactly once, that it terminated.",
      [SCH, HIS, FLT], "every tree of actors and every order of child and parent endings",
      "Tests use one parent with a few children and one stop order.",
      [A + "supervised.rs", A + "context.rs", A + "lifecycle.rs"], [("Supervised", A + "supervised.rs"), ("Drop for ActorContext", A + "context.rs")],
      TS, "Decides every path of spawning, of child termination and of the context's drop.")
    p("A06", "The actor registry is exact and shutdown stops everything",
      "Looking up an id returns the reference most recently registered for it and nothing otherwise; registering and deregistering affect exactly the given id. "
      "Shutting the system down marks it terminated and does not return before the registry actor has stopped every tracked actor and waited for each.",
      [HIS, SCH], "every history of registrations, removals and look-ups, and every set of live actors at shutdown",
      "Tests look up one or two ids; shutdown of many actors is not exercised.",
      [A + "scheduler/mod.rs", A + "system/mod.rs", A + "system/builder.rs"], [("ActorRegistry", A + "scheduler"), ("ActorSystem::shutdown", A + "system/mod.rs")],
      TS + "; who-may-write", "Decides every path of the registry handlers and of shutdown.")
    p("A07", "Timers and scheduled messages fire when due and never after being stopped",
      "A timer delivers one tick per elapsed interval to its actor, delivers none after it was stopped or its handle dropped, and "
      "ends when the actor is gone. A scheduled message is delivered once, only after its delay elapsed, and not if it was cancelled first.",
      [SCH, HIS], "every interleaving of ticks, stops, drops, cancellations and actor endings",
      "Tests use one timer and one delay.",
      [A + "scheduler/timer.rs", A + "refs/mod.rs"], [("Timer::start", A + "scheduler/timer.rs"), ("LocalActorRef::scheduled_notify", A + "refs/mod.rs")],
      TS, "Decides every path of the timer task and of scheduled delivery; the clock itself is trusted.")
    p("A08", "Watching: every current watcher, and only those, is told once",
      "Watching an actor registers exactly the watcher given, unwatching removes exactly that watcher, and neither affects others. "
      "When the watched actor terminates each watcher registered at that time is notified exactly once with the terminated actor's reference.",
      [HIS, SCH], "every history of watch and unwatch by any number of watchers",
      "Tests watch with a single watcher.",
      [A + "watch/mod.rs", A + "lifecycle.rs"], [("Handler<Watch>/Handler<Unwatch>", A + "watch/mod.rs"), ("ActorLoop::run", A + "lifecycle.rs")],
      TS, "Decides every path of the handlers and of the notification loop.")
    p("A09", "A worker pool gives each task to exactly one worker, in rotation",
      "Each dispatched task is handed to exactly one worker, the least recently used, and the pool never loses or duplicates a worker. "
      "The dispatcher gets that worker's own answer, or an error when there was none. A pool is handed out with the requested number of started workers.",
      [HIS, FLT], "every sequence of tasks and worker failures",
      "Tests dispatch a few tasks to healthy workers.",
      [A + "worker.rs"], [("Worker", A + "worker.rs")], TS, "Decides every path of dispatch, hand-over and pool creation.")
    p("A10", "Describing an actor tree is truthful and complete",
      "A describe request is answered exactly once with the actor's own id, path, type, tags and children; children are included only within the requested depth "
      "and number, and attached ones only when asked for. Every child asked yields exactly one entry: its description, an error or a timeout.",
      [HIS, CFG, FLT], "every tree of actors, every option and every failing child",
      "Tests describe one small tree.",
      [A + "describe/mod.rs"], [("Handler<Describe>", A + "describe/mod.rs"), ("describe_all", A + "describe/mod.rs")], TS, "Decides every path of the handler and of the collection of children.")
    RD = "providers/persistence/coerce-redis/src/journal/"
    p("P01", "Journal sequence numbers only grow and follow what storage acknowledged",
      "Every message, batch entry and snapshot an actor persists gets a sequence number greater than all earlier entries of its journal, consecutive within a batch. "
      "The journal moves on, and reports success, exactly when the storage acknowledged the write. After recovery the next number follows the last entry read.",
      [HIS, FLT, CRA], "every sequence of persisted messages, batches, snapshots, storage failures and restarts",
      "Tests persist a few messages with storage that does not fail, and never a message after a snapshot.",
      [P + "journal/mod.rs"], [("Journal::persist_message/persist_batch/persist_snapshot", P + "journal/mod.rs"), ("Journal::recover_*", P + "journal/mod.rs")],
      TS + " with arithmetic value provenance", "Decides every path of the journal operations.", [("last_sequence_id", "sequence of the last entry", P + "journal/mod.rs")])
    p("P02", "Persisting reports the truth and failures follow the configured policy",
      "Persisting a message, batch or snapshot reports success exactly when the journal stored that very value; a value that cannot be encoded is refused without writing. A failed write "
      "is handled by the actor's policy: retried with the same data after the configured delay up to the configured number of attempts (then the actor is stopped and the error returned), returned, "
      "returned after stopping the actor, or a panic.",
      [FLT, CFG], "every value, policy and sequence of storage failures",
      "Tests try a few policies with one failure pattern each.",
      [P + "actor.rs", P + "failure.rs"], [("PersistentActor::persist/persist_batch/snapshot", P + "actor.rs"), ("should_retry", P + "failure.rs")],
      TS, "Decides every path, counting attempts exactly up to three and abstractly beyond.")
    p("P03", "Recovery applies the snapshot and then every message, in order, or fails visibly",
      "A persistent actor starts by running its pre-recovery hook, reading its journal, applying the latest snapshot, then every later message of a configured type in journal order exactly once, and then its post-recovery hook. "
      "A read failure is reported to the actor and handled by its recovery policy and never taken for an empty journal; an entry that cannot be decoded is reported and stops the actor. After any failure "
      "nothing more is applied and the post-recovery hook does not run.",
      [HIS, FLT, CRA], "every journal content, storage failure sequence and policy",
      "Tests recover one small journal and a few failure policies.",
      [P + "actor.rs", P + "recovery.rs", P + "journal/mod.rs"], [("Actor::started for PersistentActor", P + "actor.rs"), ("recover_journal", P + "recovery.rs"), ("RecoveryHandler", P + "journal/mod.rs")],
      TS, "Decides every path of start-up, loading and the recovery handlers.")
    p("P04", "The in-memory journal returns exactly what was written under an id",
      "Writing appends the given entries in order to the given id's messages or snapshots and changes nothing else. Reading returns the newest snapshot, all messages after a given sequence in order, the message "
      "with exactly a given sequence, or all messages between two bounds (inclusive) in order. Deleting up to a sequence removes all older messages and none that is newer, keeps snapshots, and deleting an id affects only that id.",
      [HIS, INP], "every history of writes, reads and deletions over any ids and sequences",
      "Tests write and read a few entries with ascending sequences.",
      [P + "journal/provider.rs"], [("InMemoryJournalStorage", P + "journal/provider.rs")],
      "relational dataflow over MIR: which sequence comparisons lead to an element being kept", "Decides every path; selections written in an unrecognised way are not judged beyond their bounds.")
    p("P05", "The redis journal issues the right command and acknowledges only what redis did",
      "Each storage operation issues exactly one redis command addressing the key made of prefix, persistence id and kind, with the operation's own entries and bounds; all operations on the same thing use the same key. The caller "
      "gets redis' answer, decoded in order, only after the command completed, and an error when the command failed, could not be handed over or was never answered. Deleting an id deletes both its messages and its snapshots.",
      [FLT, INP, HIS], "every id, prefix, entry, bound and redis failure",
      "The redis tests need a server and are not run here.",
      [RD + "mod.rs", RD + "actor.rs"], [("RedisJournalStorage", RD + "mod.rs"), ("RedisJournal handlers", RD + "actor.rs")],
      TS + "; command tables", "Decides every path; redis' own semantics are trusted.")
    p("P06", "Journal entries and their types are read back as what was written",
      "An encoded journal entry decodes to the same sequence, type and bytes, and undecodable data is refused. A message or snapshot type configured under an identifier is written under it and recovered as that type, and the types used "
      "are those of the actor's own type. A journal is opened empty under the actor's own key, and clearing old messages never removes one newer than the last snapshot.",
      [INP, PRG, HIS], "every entry, every configured set of types, every journal",
      "Tests round-trip a few entries of two types.",
      [P + "journal/storage.rs", P + "journal/types.rs", P + "context.rs", P + "batch.rs"], [("JournalEntry", P + "journal/storage.rs"), ("JournalTypes", P + "journal/types.rs"), ("ActorPersistence::init_journal", P + "context.rs")],
      "value-provenance agreement of encode/decode and registration tables over MIR", "Decides every path; protobuf itself is trusted.")
    p("R01", "A remote request is completed by the answer that carries its id, and only by it",
      "Whenever a node makes a remote request it registers a fresh answer channel under the request's id before it hands over the request carrying that very id, waits on that channel, and never leaves a request registered that it did not send. "
      "An answer that arrives removes exactly the request registered under the answer's id and completes it with the answer's own content: results as results, errors as errors. A remote send returns that content decoded by the message's type.",
      [SCH, HIS], "every interleaving of requests, answers and failures",
      "Tests make one request at a time and never have two answers in flight.",
      [R + "system/rpc.rs", R + "actor_ref.rs", R + "net/client/receive.rs", R + "net/server/session/mod.rs"],
      [("push_request/pop_request", R + "system/rpc.rs"), ("RemoteActorRef::send", R + "actor_ref.rs"), ("StreamReceiver::on_receive", R + "net/client/receive.rs")],
      TS, "Decides every path of every function that registers, sends or completes remote requests.", [("requests", "pending remote requests", R + "handler.rs")])
    p("R02", "Every remote request a node receives is handled once and answered truthfully",
      "A message request is given to the handler registered for its type with its actor id and bytes; it is answered under its own id with the actor's encoded result exactly when a response was asked for, and with the error whenever it fails (unknown handler, unknown actor, "
      "failed decoding, failed actor). Requests to create or locate an actor and pings are each answered once under their own id with what actually happened, success or failure. A peer announcing its termination is reported to the heartbeat and its session is closed. "
      "An actor not found locally is looked for again only a bounded number of times and then reported not found.",
      [FLT, SCH, INP], "every request, registered handler set and failure",
      "Tests send well-formed requests to existing actors; failures leave the requester waiting, which a test only sees as a hang.",
      [R + "net/server/session/mod.rs", R + "handler.rs", R + "system/rpc.rs"],
      [("SessionMessageReceiver::on_receive", R + "net/server/session/mod.rs"), ("RemoteActorMessageHandler::handle_attempt/handle_direct", R + "handler.rs"), ("notify_raw_rpc_result/notify_rpc_err", R + "system/rpc.rs")],
      TS, "Decides every path of the receiving side; an address that cannot be encoded is not considered.")
    N = R + "net/"
    p("R03", "What a node encodes for the wire, a peer decodes to the same value",
      "For every client, session and system event, remote error, node description, client type, shard and singleton message that has both an encoder and a decoder: decoding the encoded form yields the same variant with every field holding the value it was given. "
      "Node, shard, request and sequence identifiers and time stamps survive unchanged over their whole range, and no two event kinds share a wire tag.",
      [INP], "every event, error and message value, every field value",
      "Tests round-trip a handful of events with small field values.",
      [N + "message.rs", R + "actor/message.rs", R + "cluster/node.rs", "coerce/src/sharding/host/mod.rs", "coerce/src/sharding/coordinator/allocation.rs"],
      [("StreamData for ClientEvent/SessionEvent", N + "message.rs"), ("From<proto> conversions", R + "cluster/node.rs"), ("Message::as_bytes/from_bytes", "coerce/src/sharding/host/mod.rs")],
      "encode/decode agreement: symbolic substitution of the encoder's field map into the decoder's over MIR", "Decides every variant and field; the generated protobuf code itself is trusted.")
    p("R04", "Only peers holding a valid token get a session",
      "A session sends nothing about its node and handles no frame of a peer until the configured authentication accepted the token in the peer's first frame, which must be an Identify event; otherwise the session is stopped. With authentication configured, a token is accepted exactly "
      "when its signature verifies under the configured secret and, if a time to live is configured, it is not older than that. A client's first frame is an Identify event carrying a token generated by its configured authentication with the current time.",
      [INP, SCH, CFG], "every sequence of frames a peer can send, every token and configuration",
      "One test checks one valid and one wrong secret.",
      [N + "server/session/mod.rs", N + "security/auth/jwt.rs", N + "security/auth/mod.rs", N + "client/connect.rs"],
      [("RemoteSession::started", N + "server/session/mod.rs"), ("Jwt::validate_token", N + "security/auth/jwt.rs"), ("RemoteClient::connect", N + "client/connect.rs")],
      TS + "; relational check of the age comparison", "Decides every path; HMAC and the jwt crate are trusted.")
    p("R05", "A client loses, repeats and reorders nothing while its connection comes and goes",
      "What is written through a client that has not given up is written to the connection or appended to its buffer, exactly one of the two; a failed write is buffered and handled as a lost connection. Once connected, the connection is announced under the peer's identity, its address is put up for discovery, "
      "everyone waiting for the identity is told, and the buffer is flushed oldest first, a message that cannot be written going back to the front. A lost connection or failed attempt leads to another attempt after a delay until a fixed number of consecutive failures, after which the client is removed from the registry and stops. "
      "A handshake is written once per connection and everyone asking for it on a connected client is told when it is acknowledged. Pings report truthfully to the heartbeat how they ended, and a lost peer is reported as disconnected and forgotten. A client of a terminating system says so to its peer and closes the connection.",
      [FLT, SCH, HIS], "every history of connection losses, write failures and concurrent requests",
      "Tests connect once over loopback and never lose a connection with messages buffered.",
      [N + "client/mod.rs", N + "client/send.rs", N + "client/connect.rs", N + "client/ping.rs", N + "client/receive.rs"],
      [("RemoteClient::write/flush_buffered_writes", N + "client/send.rs"), ("Handler<Connect>, Handler<Disconnected>", N + "client/connect.rs"), ("Handler<PingTick>", N + "client/ping.rs")],
      TS, "Decides every path of the client's handlers; TCP itself is trusted, and messages still buffered when a client gives up are not claimed.", [("write_buffer", "buffered messages", N + "client/mod.rs"), ("state", "connection state", N + "client/mod.rs")])
    p("R06", "A session handles its peer's frames in order and leaves the server standing",
      "Frames of a connection are handled one at a time in the order they arrived, each decodable one exactly once, an undecodable one skipped; when the stream ends or fails the receiver is closed, and the session with it. "
      "A session is kept under its own id until it closes, only it is removed then, and what is written to an id goes over that session's connection. Every accepted connection becomes a session with a new id, and neither a failed accept nor a "
      "failed session ends the server. An accepted peer is sent this node's identity, and a handshake is answered with this node's own description and the nodes it knows, after the nodes it named were discovered.",
      [SCH, INP, FLT], "every sequence of frames, connections and failures",
      "Tests open a handful of connections that behave.",
      [N + "mod.rs", N + "server/mod.rs", N + "server/session/mod.rs", N + "server/session/store.rs"],
      [("receive_loop", N + "mod.rs"), ("server_loop", N + "server/mod.rs"), ("RemoteSessionStore handlers", N + "server/session/store.rs"), ("session_handshake", N + "server/session/mod.rs")],
      TS + "; for-each obligations", "Decides every path; TCP and the codec's framing are trusted.", [("sessions", "open sessions by id", N + "server/session/store.rs")])
    H = R + "heartbeat/mod.rs"
    p("R07", "Leadership follows from the nodes' observed health",
      "A peer's status follows from its last ping: healthy when answered quickly and recently enough, terminated when disconnected, when it has been silent for the configured time or when it fails again while unhealthy, unhealthy otherwise; without any ping it is joining, or stays terminated. "
      "On every tick every known node gets its status and all are stored, this node being healthy. From the second tick on, the leader is the healthy node started first, the lowest id among equals; whenever that differs from the current leader it is recorded, "
      "read back unchanged whatever its id, published, and told to everyone waiting. A node announces once that it is up, naming that leader and all nodes, and only once the configured minimum of nodes is reached.",
      [SCH, HIS, CFG], "every history of pings, every set of nodes, ids and configured time-outs",
      "Tests run two or three nodes for a few heartbeats; time-outs, ties and large ids never occur.",
      [H, R + "cluster/mod.rs", R + "system/mod.rs", R + "system/cluster.rs"],
      [("node_status/update_node", H), ("Handler<HeartbeatTick>", H), ("Heartbeat::update_leader", H), ("current_leader/update_leader", R + "system/cluster.rs")],
      "relational dataflow over MIR: guard-to-status tables, comparator analysis, " + TS, "Decides every path; agreement between nodes on the leader is not claimed.", [("node_pings", "last ping per peer", H), ("current_leader", "leader id", R + "system/mod.rs")])
    DI = R + "cluster/discovery/mod.rs"
    p("R08", "Discovery reaches every named node once and tells how it ended",
      "Every node named for discovery that is neither known and live nor already being discovered is registered, marked and handshaken with exactly once, over a client to its own address and with all live nodes known; the others are left alone, and none stops the rest. "
      "Discovering an address discovers the node there and its peers, never this node itself. Whoever waits for a discovery is told exactly once, after its handshakes ended: at once when the address is known, and that it failed when nobody there can be identified. "
      "A node is announced as added exactly when its handshake succeeded while it was being discovered, and is not being discovered afterwards however the handshake ended. A forgotten address forgets its node and announces its removal.",
      [SCH, FLT, HIS], "every set of named and known nodes, every order and outcome of handshakes",
      "Tests join two or three nodes whose handshakes succeed.",
      [DI], [("Handler<Discover>", DI), ("Handler<NodeDiscovered>", DI), ("discover_node_handshake", DI), ("get_node_identity/discover_nodes", DI)],
      TS + "; for-each obligations", "Decides every path; that a peer answers at all is not claimed.", [("discovering_nodes", "nodes being discovered", DI), ("discovered_nodes_by_addr", "identities", DI)])
    SH = S + "host/mod.rs"
    SR = S + "host/request.rs"
    p("S01", "A request reaches the shard its id belongs to once, and its answer comes back",
      "Which shard an actor id belongs to depends only on the id and the allocator's configuration and is one of the configured shards. A request is handed exactly once to that shard: directly when it is hosted here and ready, into its buffer while it starts, to the node hosting it when that is known, "
      "and otherwise kept, in order, until the shard is allocated, its allocation being asked for and the answer acted upon; only a request to a shard being stopped is dropped. When a shard is allocated or has started, every request kept for it is handled. "
      "A forwarded request carries its id, message, recipe and origin unchanged under a registered request id, and its answer, result or error, goes to the sender. Sending to a sharded actor hands over the encoded message with the actor's id and recipe and returns the decoded result or the error.",
      [INP, SCH, HIS], "every actor id, every state of the shard, every order of allocation, start and requests",
      "Tests send a few requests to shards that are allocated and ready, on one or two nodes.",
      [SR, SH, S + "mod.rs", S + "coordinator/allocation.rs"],
      [("Handler<EntityRequest> for ShardHost", SR), ("remote_entity_request", SR), ("Handler<ShardAllocated>, Handler<ShardReady>", SH), ("Sharded::send", S + "mod.rs"), ("DefaultAllocator::allocate", S + "coordinator/allocation.rs")],
      TS + "; purity and provenance over MIR; for-each obligations", "Decides every path; that an allocation succeeds eventually is not claimed.", [("requests_pending_shard_allocation", "requests waiting for an allocation", SH), ("hosted_shards", "shards hosted here", SH)])
    p("S02", "A host starts, stops and hands over its shards exactly as allocated",
      "A shard allocated to this node is started once, as a child of the host under the name other nodes look for, hosted as starting until it has started and ready afterwards, and not looked for elsewhere. A shard allocated to another node is stopped here, whether ready or still starting, no longer hosted, and looked for on exactly that node under the name it is given there. "
      "A shard that started after it was given away is not hosted. A request to stop a hosted shard that is starting or ready stops it, once it has started, and is answered under its own id and to its own node, truthfully and only after the shard has stopped; from then on it is not hosted. A shard about to move is no longer looked for elsewhere.",
      [SCH, HIS], "every order of allocations, starts and stop requests for a shard",
      "Tests allocate shards that start at once and never stop or move one while it starts.",
      [SH, S + "mod.rs"], [("Handler<ShardAllocated>", SH), ("Handler<ShardReady>", SH), ("Handler<StopShard>, stop_shard", SH), ("ShardHost::remote_ref", SH)],
      TS + "; agreement of formatted names", "Decides every path of the host's handlers; that at most one node in the cluster runs a shard is not claimed.", [("hosted_shards", "state of the shards hosted here", SH), ("remote_shards", "where other shards are", SH)])
    SA = S + "coordinator/allocation.rs"
    SB = S + "coordinator/balancing.rs"
    SE = S + "shard/mod.rs"
    p("S03", "A shard is allocated once, durably, to the ready host with the fewest shards",
      "A shard that is allocated stays where it is and that is what the coordinator answers. Any other shard is allocated only after the request was persisted, unless it is only being moved, to a ready host with the fewest shards; the coordinator's table, that host's list of shards and the answer agree, and every ready host is told. "
      "When persisting fails nothing is allocated and the answer is an error; without a ready host the answer is that the shard is not allocated. Every persisted request is allocated again on recovery, under a persistence key of the coordinator's own entity.",
      [HIS, FLT, CRA], "every table of hosts and shards, every persistence failure, every recovery",
      "Tests allocate a handful of shards with working persistence.",
      [SA, S + "coordinator/mod.rs"], [("Handler<AllocateShard>, Recover<AllocateShard>", SA), ("ShardCoordinator::allocate_shard", SA), ("allocate, broadcast_allocation", SA)],
      TS + "; comparator analysis; for-each obligations", "Decides every path; messages to hosts that are lost are not claimed.", [("shards", "host of each shard", S + "coordinator/mod.rs"), ("hosts", "hosts and their shards", S + "coordinator/mod.rs")])
    p("S04", "Shards follow the cluster's members without being abandoned or moved for nothing",
      "A moving shard is taken off the table and off its old host's list, all hosts are told, the old host is asked to stop it under a registered request of this node, and the move allocates it anew only when the old host answered. When a node is gone its host is no longer eligible before any of its shards, every one of which is taken off the table and allocated anew. "
      "A full rebalance moves shards only off hosts with more than an even share, and no more than the surplus. A node that joins or returns becomes a ready host under its own id and name and a rebalance is scheduled, replacing one already scheduled; a node that leaves is rebalanced away. "
      "A starting coordinator knows its own host as ready and all other nodes' hosts, ready exactly when healthy or joining, and keeps its subscription to cluster events.",
      [HIS, SCH, FLT], "every sequence of nodes joining, leaving and returning, every distribution of shards",
      "Tests rebalance once between two nodes.",
      [SB, S + "coordinator/discovery.rs", S + "coordinator/mod.rs"], [("ShardCoordinator::rebalance_shards", SB), ("rebalance_unavailable_node", SB), ("Handler<Rebalance>", SB), ("on_node_discovered/on_node_removed", S + "coordinator/discovery.rs"), ("pre_recovery", S + "coordinator/mod.rs")],
      TS + "; relational guards; for-each obligations", "Decides every path; that two nodes never run a shard at once is not claimed: a request during a move may have it allocated before the old host stopped.", [("hosts", "hosts, status and shards", S + "coordinator/mod.rs")])
    p("S05", "An entity is started once per id, recorded first, and no request to it is lost",
      "A request to an entity is disposed of exactly once: handled by the running entity through the handler registered for its message, appended to the requests of a starting entity, kept as first request of an unknown entity that is then started from the request's recipe, or answered with an error saying what is missing. "
      "With persistent entities the start is persisted before the entity is created, except on recovery; the entity is created under its id from its recipe as a child of the shard, and the outcome is reported whatever it is. When it has started every request kept for it is handed to it; when it failed to start it is forgotten and each is answered with the error. "
      "A request forwarded by another node is answered exactly once, under its own id and to its own node, with result or error. A recovered shard starts each entity that was started and not removed from its own recipe, and every started shard tells its host.",
      [SCH, HIS, FLT, CRA], "every interleaving of requests, starts and failures, every journal",
      "Tests send to entities that start at once; a start that fails or is slow, or a recovery with several entities, never occurs with requests waiting.",
      [SE, S + "shard/recovery.rs"], [("Handler<EntityRequest>, Handler<RemoteEntityRequest>", SE), ("Shard::start_entity, Handler<EntityStartResult>", SE), ("post_recovery/recover_entities", SE), ("Recover<StartEntity>", S + "shard/recovery.rs")],
      TS + "; for-each obligations", "Decides every path; a failing persist of a start is ignored by the code and not claimed; an entity that stops by itself is not restarted.", [("entities", "entities by id", SE)])
    GM, GL, GS = G + "manager/mod.rs", G + "manager/lease.rs", G + "manager/start.rs"
    p("G01", "A message to a singleton is kept until it runs and then delivered exactly once",
      "A message given to a singleton's handle on any node goes to that node's proxy. While the singleton is not known to run it is appended to the proxy's queue, whatever its length; while it is known to run the message is sent to it exactly once and its result, or the error, is what the sender gets; "
      "notifying needs no waiting sender and never panics the proxy. When the singleton starts, every queued message is sent to it, taken oldest first, and the proxy sends to the singleton that started last; when it stops, the proxy keeps messages again without dropping those it has. A dropped reply is an error to the sender, not a panic.",
      [SCH, HIS, FLT], "every interleaving of messages with singletons starting, stopping and moving",
      "The test sends one message per node to a singleton that never moves.",
      [G + "mod.rs", G + "proxy/mod.rs", G + "proxy/send.rs"], [("Singleton::send, Singleton::notify", G + "mod.rs"), ("Handler<Deliver>, Buffered::send", G + "proxy/send.rs"), ("Handler<SingletonStarted>, Handler<SingletonStopping> for Proxy", G + "proxy/mod.rs")],
      TS + "; for-each obligations", "Decides every path of the proxy; sends are tasks of their own, so the order in which the singleton receives them is not claimed.", [("state", "Buffered with its queue, or Active", G + "proxy/mod.rs")])
    p("G02", "A singleton is started only under a lease every other manager granted",
      "A manager starts its singleton only when it leads the cluster and every manager it knows has acknowledged this attempt, or it knows none: each acknowledgement counts once, from a known manager; a node that left neither counts nor is waited for; a node added meanwhile is asked too. "
      "A manager acknowledges only when it runs no singleton: at once if idle, after joining if it was asked before, and after its own singleton has stopped if one was running or stopping; never while it is starting one. The managers it knows are exactly the other nodes the singleton may run on, under the names they give themselves. "
      "When the singleton has started its proxy, every manager and every node added later are told where it runs; when it stops they are told so; what could not be sent is tried again. Nothing else starts the singleton or grants the lease, and every message managers exchange is registered.",
      [SCH, HIS, FLT], "every interleaving of membership changes, leader changes, lease requests, acknowledgements and singletons stopping",
      "The test starts two nodes once; leaders never change, nodes never leave, and no singleton is ever stopped.",
      [GM, GL, GS, G + "mod.rs"], [("Handler<RequestLease>, Handler<LeaseAck>", GL), ("Handler<Receive<SystemTopic>> for Manager", GM), ("on_child_stopped, begin_stopping, notify", GM), ("start_actor, Handler<ActorStartResult>", GS), ("singleton()", G + "mod.rs")],
      TS + ", per manager state and cluster event; for-each obligations; who-may-call; handler registration", "Decides every path of each handler in each state; that the nodes agree on one leader and membership is not claimed, so at most one singleton per cluster is not either, only that no manager skips the lease.", [("state", "Joining, Idle, Starting, Running, Stopping", GM)])
    RG = R + "actor/registry.rs"
    MED = R + "stream/mediator/mod.rs"
    PSB = R + "stream/pubsub.rs"
    p("R09", "An actor is found where its registration was recorded, over one client per node",
      "An actor that starts as tracked is announced to the registry of the cluster. A registration for this node is recorded at the node the actor's id is assigned to: here if that is this node or no nodes are known, else by telling that node, with the id and this node's number; one that names a node is recorded here. "
      "A look-up answers exactly once: what is recorded here, nothing if the id is assigned here or to no node, else what the assigned node answers to a request registered before it was sent. The reference obtained leads to the tracked actor itself or to that id on that node. "
      "Ids are assigned among exactly the known nodes, each once. An address has one client; a message for a node goes once, unchanged, to the client connected to it, a client that has gone is taken off the tables, and writing to it never brings the registry down.",
      [INP, SCH, HIS], "every id, every set and history of nodes, registrations, look-ups and connections",
      "Tests look up a few actors in a cluster of two stable nodes.",
      [RG, R + "actor/clients.rs", R + "cluster/node.rs", R + "system/actor.rs"], [("Handler<RegisterActor>, Handler<GetActorNode>", RG), ("RemoteNodeStore::add, remove", R + "cluster/node.rs"), ("locate_actor_node, actor_ref", R + "system/actor.rs"), ("Handler<NewClient>, Handler<ClientWrite>", R + "actor/clients.rs")],
      TS + " with value provenance", "Decides every path of the registry, the node store and the client registry; a look-up whose request is never answered ends by the caller's timeout, which is not timed here.", [("actors, nodes", "recorded actors; hash ring of nodes", RG)])
    p("R10", "What is published reaches every subscriber of that topic and key, on every node",
      "What is published on a topic reaches the subscribers of that topic and key on this node and, unless it is published locally, is encoded once and sent to every other node known, under the topic's name and key; what cannot be encoded is an error. What another node published reaches the subscribers of that topic and key here, once, decoded as that topic's messages. "
      "All subscribers of a topic and key share one channel, made once and kept. A subscription passes every message it receives to its subscriber once and in order, goes on after messages were skipped because the subscriber was slow, and ends when the topic or subscriber has ended or it is dropped. The nodes published to are the other nodes added and not removed since.",
      [SCH, HIS, INP], "every topic, key, set of subscribers and nodes, and every order of publishing, subscribing and membership changes",
      "Tests publish a few messages to one subscriber.",
      [MED, PSB], [("Handler<Publish<T>>, Handler<PublishRaw>, Handler<Subscribe<A, T>>", MED), ("TopicSubscriberStore, Subscription", PSB)],
      TS + "; for-each obligations", "Decides every path of the mediator, the subscriber store and the subscription task.", [("topics, nodes", "subscriber stores by topic; other nodes", MED)])
    p("R11", "An actor deployed remotely is created once, from its recipe, under its id",
      "Deploying an actor encodes its recipe and creates it, under the id given or a new one, on the node given or this one: here directly, elsewhere by one request to that node under a fresh id carrying type, id and recipe. The reference returned leads to the id and node the creation answered; every failure is an error, and nothing is created when the recipe cannot be encoded. "
      "A node asked to create an actor refuses when that id is found in the cluster or the type is not registered; otherwise it decodes the recipe, makes the state from it and starts one actor with it, tracked or as a child of the given parent, and answers with the id and its own node. What cannot be decoded or made is an error, and nothing is started.",
      [INP, FLT], "every recipe, id, node, type and outcome of creation",
      "Tests create one actor successfully.",
      [R + "system/actor.rs", R + "handler.rs"], [("deploy_actor, handle_create_actor", R + "system/actor.rs"), ("ActorHandler::create", R + "handler.rs")],
      TS + " with value provenance", "Decides every path; two concurrent creations of one id on different nodes can both find it absent, which is not claimed.")
    p("R12", "A health report asks every registered actor; its verdict follows the answers",
      "An actor registered for health checks is checked from then on until it is removed, and removing it removes no other. A health report asks every registered actor and is sent exactly once: unhealthy if and only if one of them did not answer that it is started, degraded if and only if all did and one was slow, healthy otherwise.",
      [HIS, FLT, SCH], "every set of registered actors and every combination of their answers",
      "The tests ask one healthy node and one with one failing actor.",
      [R + "heartbeat/health.rs"], [("Handler<GetHealth>, Handler<RegisterHealthCheck>, Handler<RemoveHealthCheck>", R + "heartbeat/health.rs")],
      TS + "; for-each obligations", "Decides every path of the report; how long an actor may take is not claimed.")
    p("R13", "A node runs with exactly what it was configured with, and all its parts know it",
      "A handler registered for an actor and message is found under its name and by its actor and message, an actor's factory under the name of the actor's type; registering again replaces, and no registration is lost when the node is built. A node built has the id, tag, version, attributes, heartbeat settings and authentication given, or defaults for those not given; every configuration step is applied, in order. "
      "Before it is returned its registry, heartbeat, discovery, scheduler and mediator, if any, are told of the system; it starts out as leader only if it is a single node. A worker registers itself under the address others reach it at, listens on the listen address and discovers peers from its seed, unless the seed is its own address.",
      [CFG, PRG], "every set of handlers, factories and settings",
      "Tests build a few configurations and read almost none of it back.",
      [R + "system/builder.rs", R + "config/mod.rs", R + "cluster/builder/worker.rs", R + "handler.rs"], [("RemoteSystemConfigBuilder, RemoteActorSystemBuilder::build", R + "system/builder.rs"), ("RemoteSystemConfig", R + "config/mod.rs"), ("ClusterWorkerBuilder::start", R + "cluster/builder/worker.rs")],
      TS + " with value provenance", "Decides every path of the builders; that two users do not register different things under one name is theirs to keep.")
    p("S06", "Sharding is started whole and every message its parts send is registered",
      "Every message that hosts, coordinators and shards send to an actor that may be on another node is registered, under a name no other handler has and with a codec of its own. Starting sharding for an entity type without a registered factory is an error and starts nothing; otherwise it starts one host, with that factory and the allocator given, under the id by which other nodes address it, and a coordinator singleton for that entity type and host, and the host knows the coordinator before sharding is returned. "
      "The entity type, allocator and system given to the builder are the ones used. A sharded reference carries the id asked for and the recipe given, encoded.",
      [CFG, PRG, INP], "every entity type, allocator, recipe and message type",
      "Tests start one entity type and send the few messages a stable cluster needs.",
      [S + "mod.rs", S + "builder.rs", S + "host/mod.rs", S + "coordinator/mod.rs"], [("Sharding::try_start, Sharding::get, sharding()", S + "mod.rs"), ("ShardingBuilder", S + "builder.rs"), ("Handler<Init> for ShardHost", S + "host/mod.rs")],
      TS + "; handler registration", "Decides every sent message and every path of starting; the sharded reference's sending is S01.")
    na("X01", "At most one instance of a singleton, and of each sharded entity, in a cluster",
       "At any moment at most one node of a cluster runs a given singleton, and at most one node runs a given sharded entity, through any history of nodes joining, leaving, crashing and being partitioned.",
       [SCH, CRA, FLT], "every history of membership, crashes and partitions across all nodes",
       "Needs several processes and adversarial failures.",
       [GM, S + "coordinator/mod.rs", R + "heartbeat/mod.rs"], [("leader election by lowest start time", R + "heartbeat/mod.rs"), ("lease", GL), ("shard allocation", SA)],
       "Depends on every node having the same view of membership and leader at the same time, which this design does not establish (a partition gives two leaders); no argument over the source of one process bounds it. The per-node obligations that are decidable are G02, S02 to S05 and R07.")
    na("X02", "A stable cluster converges: one leader, shards allocated, requests answered",
       "Once membership stops changing, all nodes agree on one leader, every requested shard is allocated and started, and every pending request is answered or fails within its timeout.",
       [SCH, FLT], "every schedule after the last fault",
       "Tests sample one schedule.",
       [R + "heartbeat/mod.rs", SA], [("heartbeat ticks", R + "heartbeat/mod.rs"), ("AllocateShard", SA)],
       "A liveness property over clocks, timers and message delays between processes; static analysis of paths shows what each step does, not that it happens in time.")
    na("X03", "Messages between two nodes are delivered in the order they were sent",
       "Messages one actor sends to another actor on another node are handled in the order sent, also across reconnections.",
       [SCH, FLT], "every interleaving of the sending, writing, reading and handling tasks of two processes",
       "Tests await each answer before they send the next message.",
       [R + "net/client/mod.rs", R + "actor/message.rs"], [("RemoteClient write", R + "net/client/mod.rs"), ("session handling in tasks of their own", R + "net/server/session/mod.rs")],
       "Received messages are handled by tasks of their own whose order the runtime decides, so the code does not provide the guarantee end to end; the part that is decidable (writes kept in order and flushed in order) is in R05 and R06.")
    na("X04", "Load is spread evenly and dispatch costs stay bounded",
       "Shards are spread over the hosts in proportion, and memory and time per message stay bounded under sustained load.",
       [SCH, INP], "every workload", "Needs sustained load.",
       [SA, SB], [("allocation by weight", SA)],
       "Quantities at run time (load, queue lengths, memory) that no sound static argument in reach bounds; queues are unbounded by design.")
