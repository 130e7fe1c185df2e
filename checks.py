"""Which monitors decide which property, and what their coverage means."""

HOOKS = dict(guard="none", enable="no hooks: the monitors observe the exported API, the wire and the process from outside", source_commits=[])
NOT_APPLICABLE = {}

DL = dict(pkg="dl", shards=8)
TP = dict(pkg="tp", shards=24, conc=24)
SEQ = "reference-model monitor over executions of the real code"
BUB = "trace monitor at exact quiescence points (virtual time) of the real orderer"
SEQ_NOTE = "Held on the executions observed: %s. Nothing is claimed about inputs not generated."


def c(id, part, rule, technique, note, **kw):
    parts = part if isinstance(part, list) else [part]
    CHECKS[id] = dict(parts=parts, rule=rule, technique=technique, note=note, **kw)


CHECKS = {}
c("C01", DL, "random schemas, blocks and delivery orders of the real producer's messages (and of an independent encoder's), plus every permutation of small blocks; distinct: different delivered message sequences",
  SEQ, SEQ_NOTE % "blocks and schemas are random, small blocks are delivered in every order; the expected block is computed from the producer's arguments")
c("C02", DL, "as C01 with one needed message withheld until the end; distinct: different delivered message sequences",
  SEQ, SEQ_NOTE % "every message of a block is in turn the withheld one; what is needed is computed by an independent decoder of the messages")
c("C03", DL, "streams of blocks with single messages, whole blocks and whole retained windows redelivered by two producers, blocks from messages and complete ones mixed; distinct: different delivered message sequences",
  SEQ, SEQ_NOTE % "redelivery stays within the retained window of twice the reorg threshold")
c("C04", DL, "random tracked-prefix sets over random schemas, untracked messages kept or dropped; distinct: different delivered message sequences",
  SEQ, SEQ_NOTE % "random tracked prefixes; the header's own updates are subject to the same rule as the code's documentation gives")
c("C05", DL, "real producer calls decoded by an independent codec; distinct: different block shapes and schema sizes",
  SEQ, SEQ_NOTE % "the accounting is recomputed from the bytes by an independent codec")
c("C06", DL, "random block trees in random delivery orders with repeats, from a given block or none; distinct: different delivery sequences",
  BUB, SEQ_NOTE % "trees of up to 26 blocks, deliveries one at a time")
c("C07", DL, "random block trees in random delivery orders with repeats, from a given block or none, checked at every quiescent point; distinct: different delivery sequences",
  BUB, SEQ_NOTE % "trees of up to 26 blocks whose weights increase along each chain")
c("C09", DL, "random block trees with whitelisted heights; distinct: different delivery sequences that exclude at least one block",
  BUB, SEQ_NOTE % "descendants of an excluded block are claimed excluded when they arrive after it")
c("C10", DL, "long runs with forks up to the threshold, deep single reorgs, with orphans and markers in between; a census of what is retained of headers, bodies, and small blocks by the thousand; distinct: different delivery sequences",
  BUB + "; reachability census after garbage collection", SEQ_NOTE % "runs up to a few hundred times the threshold; blocks whose parents never come and messages whose headers never come are left out of the census except light ones below the head (see DESIGN.md)")
c("C24", DL, "bytes exchanged in both directions with an independent codec, and golden vectors; distinct: different block shapes / message sequences",
  "differential monitor against an independent codec, golden vectors", SEQ_NOTE % "the independent codec was written from SPEC.md")
c("C12", DL, "random virtual-time histories of announcements, applications and waits, by hash and by number, checked offline against the recorded history; long chains whose blocks must be known for a minute after they were applied and forgotten then; stopped waiters must leave no goroutine; distinct: different histories",
  "offline history checker over virtual-time executions", SEQ_NOTE % "up to 12 blocks and a few dozen waits per history, or up to 65 blocks applied at once each")
c("C11", DL, "chains produced by two producers onto partitioned topics, read with bounded skew, restarted up to three times from random tokens; distinct: different token histories",
  "offline history checker: replay from recorded tokens", SEQ_NOTE % "each partition carries blocks in chain order; the restart goes back by at least the number of messages by which sources had run ahead (the rollback's purpose)")
c("C19", [DL, dict(TP, name="ws")], "well-formed streams with malformed messages (short or unknown keys, bad indices and counters, undecodable headers; websocket messages of wrong types or with invalid fields) thrown in anywhere; distinct: different well-formed delivery sequences around them",
  SEQ, SEQ_NOTE % "values whose Avro container structure is corrupted are left out: the Avro library accepts some of them (see DESIGN.md)")
c("C23", [DL, dict(TP, name="tp")], "chains, reorg markers naming one of their blocks, fresh branches on it, with and without waiting for the orderer in between; blocks of the rewound chain delivered again in any local order; consumers listing several topics; the same through a Kafka cluster with a reorg topic and through websockets; distinct: different shapes",
  BUB + "; trace monitor over end-to-end executions", SEQ_NOTE % "markers and blocks share one ordered source; markers for a block already named by an earlier one are counted, not judged")
DLR = dict(pkg="dl", shards=8, race=True, procs=4)
RACE = "race detector and state monitors over stress executions"
c("C18", [dict(DLR, name="orderer"), dict(TP, race=True, name="tp")], "concurrent producers, subscribers, pollers and waiters on one orderer; the transports' executions of the other properties; distinct: different cases and update sequences",
  RACE, SEQ_NOTE % "races are those between accesses both observed in one execution")
E2E = "trace monitor over end-to-end executions of the real transports, with faults injected by the other side"
c("C13", TP, "real producers and a real consumer around a Kafka cluster that delays, drops and refuses requests; distinct: different block counts, producer counts, updates, reorgs and record counts",
  E2E, SEQ_NOTE % "the cluster is the harness's own implementation of the Kafka protocol (fakekafka), which stays in scope of what a Kafka cluster may do; progress is judged after 70 s of quiet")
c("C14", TP, "consumers of a Kafka cluster stopped (settled or midway) and restarted from tokens with random rollbacks, with and without branches, expired messages, small fetches and failing brokers; consumers that start from now; distinct: different sequences of stops and rollbacks",
  E2E, SEQ_NOTE % "the rollback given covers the messages written since the feed was last settled, as an operator would choose it; 'settled' restarts use rollback zero or less")
c("C27", TP, "random message times over random partitions of one or two clusters, asked for times at, just before and just after messages, before all and after all; distinct: different tokens",
  "differential monitor against the recorded feed", SEQ_NOTE % "message times increase along each partition, as with a cluster's own clock")
c("C20", TP, "heartbeats of up to six producers on random partitions at random times, counted by consumers and producers over many spans; real producers through two periods of 30 s with their health changing; distinct: different histories",
  E2E, SEQ_NOTE % "spans are chosen so that the time a heartbeat takes to arrive cannot matter")
c("C21", TP, "feeds with recent, older and expired blocks, producers that start on them and are given recent, older and new blocks in random order, blocks that others add later, and replays asked for; distinct: different feeds",
  "conservation monitor over the cluster's recorded messages", SEQ_NOTE % "'recent' is among the last 100 messages of its partition when the producer started; what others send later must be known within 10 s at most")
c("C22", TP, "feeds of up to 150 headers with heartbeats and other messages in between, partly expired; distinct: different feeds",
  "differential monitor against the recorded feed", SEQ_NOTE % "the answer must lie between the highest number among the last 100 messages of each partition and the highest number on the feed; a first answer below it may be due to the one-second limit and is asked for again")
c("C26", TP, "random combinations of valid, invalid and missing URL options, compared with the client's configuration and with what brokers see; right and wrong credentials; distinct: different URLs",
  "differential monitor against an independent reading of the options; wire monitor", SEQ_NOTE % "TLS is only observed in the configuration")
c("C25", TP, "Kafka and websocket consumers closed before, during and after start, with partitions held back, in the middle of a backlog, with subscriptions nobody reads, once, twice or concurrently; distinct: different moments, subscriptions and amounts delivered",
  "census of goroutines and connections, and trace monitor, over executions of the real transports", SEQ_NOTE % "goroutines of the chain orderer and of the metrics library, which Close does not promise to end, are not counted")
c("C29", TP, "backlogs over random partitions, some held back for seconds, served slowly, expired or empty, with slow and stalling subscribers; distinct: different backlogs and paces",
  E2E, SEQ_NOTE % "readiness is compared with what the broker has handed out and what subscribers have received; for websockets with what the application had stored")
c("C15", TP, "random block trees, starting points and times, up to three consumers of one producer, batches sent late and concurrently; an independent client reading the messages; distinct: different sizes, starts and updates",
  E2E, SEQ_NOTE % "the producer's application stores a block before announcing it; keys are valid UTF-8 and weights fit 256 bits, as JSON and the hex encoding demand; connections are set up and taken down one at a time, since the RPC library's server is not safe otherwise")
c("C16", TP, "connections to the real producer lost after random numbers of bytes or times and refused, failing subscriptions; a server of the harness's own that sends blocks in parts in any order, early, twice, and hangs up anywhere; distinct: different sequences of connections and starting points",
  E2E, SEQ_NOTE % "what a consumer asks for must be enough to get every block; progress is judged after 70 s of quiet")
c("C17", dict(TP, shards=40, conc=40), "two to four sources (Kafka clusters, websockets, null) carrying all, some or single blocks, one of which may stop serving, be refused or restarted from; producers of up to three destinations, one of which may refuse everything; distinct: different sources, shares of blocks and histories",
  E2E, SEQ_NOTE % "sources on different clusters use different topic names, as tokens name only topics; the clusters' own limits are those of C13, C14 and C16")
c("C30", TP, "up to four producers started within 40 ms of each other on clusters of up to five brokers where any of their topics may be missing, creation is slow and new topics have no leaders for a moment; refusals, hang-ups and topics without names; distinct: different clusters, schemas and delays",
  "conservation monitor over the cluster's recorded topics, with faults injected by the cluster", SEQ_NOTE % "the cluster is the harness's own implementation of the Kafka protocol")
c("C31", TP, "two to eight partitions with up to 1800 messages each from offsets up to a thousand apart, one or two of them stuck after so many messages, for a second or beyond the five-second reset; distinct: different backlogs and leads",
  "ordering monitor over blocks that mark positions on the partitions", SEQ_NOTE % "the lead is judged during the first 4.5 s, in which no reset can have happened, against what the broker has handed out of the stuck partition")
c("C32", TP, "every call with unknown protocols, dead and unparsable broker URLs, bad tokens, missing topics, ports and resumers, alone or among valid ones in any position; distinct: different calls and arguments",
  "result monitor over calls that cannot succeed; census of connections", SEQ_NOTE % "the websocket consumer, which keeps dialling by design, is subject of C16; that a websocket producer's port may be taken is known only to the RPC library")
c("C28", DL, "as C01 and C07, asking about every block after every message; distinct: different delivery sequences",
  SEQ, SEQ_NOTE % "the answer must name something that is outstanding by an independent decoding of the messages; which of several is free")
