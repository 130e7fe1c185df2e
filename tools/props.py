"""The properties: one table, from which gen.py writes properties.jsonl and MANIFEST.json."""

D, T, W = "delivery/", "transports/", "waiter/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


prop("C01", "A reassembled block is exactly the block that was produced",
     "When a consumer emits a block, its number, hash, parent, weight, values, deletes and batches are those given to the producer, restricted to the tracked prefixes. This does not depend on how the schema split the block into messages, or on the order and interleaving in which the messages arrived. Preconditions: sub-batch ids are unique, a block updates each key at most once and deletes it at most once, and schema patterns do not overlap.",
     ["inputs", "schedules"], "every block, schema and arrival order of its messages, interleaved with those of other blocks",
     "The tests deliver a handful of fixed blocks in a few shuffles and mostly count updates; keys, prefixes, empty values, nested batches and interleavings are unbounded.",
     [D + "consumer.go", D + "producer.go", D + "types.go"],
     [("counting down the header's prefix and batch counters", D + "consumer.go PendingBatch.ApplyMessage"), ("messages before their header are kept", D + "consumer.go MessageProcessor.ProcessMessage")],
     ["blocks received from MessageProcessor.Subscribe(chan *PendingBatch)"])
prop("C02", "A block is emitted once complete, and never before",
     "A consumer emits a block at the moment the last message needed for it (header, every announced update, deletion and sub-batch message under tracked prefixes) has been processed. It emits nothing for a block while any needed message is outstanding. Duplicates of messages already counted do not make a block complete early.",
     ["inputs", "schedules", "histories"], "every block, every arrival order and duplication of its messages, every choice of a withheld message",
     "Tests check that blocks arrive, not that nothing arrives too early for each possible missing message, nor with duplicates standing in for missing ones.",
     [D + "consumer.go"], [("prefix counters, batch counters and seen-message set", D + "consumer.go PendingBatch"), ("ready test after each message", D + "consumer.go MessageProcessor.ProcessMessage")],
     ["the sequence of processed messages against the sequence of emitted blocks"])
prop("C03", "Every block is emitted exactly once under redelivery",
     "However often the messages of a block are delivered, by one or several producers of the same stream, the unordered stream of blocks contains the block once. This covers redelivery within the retained window: at least the last 2 x reorg-threshold completed blocks.",
     ["schedules", "histories"], "every stream of blocks and every redelivery of messages, blocks and windows by several producers",
     "Tests duplicate messages of single blocks a few ways; partial redelivery before and after completion, interleaved with other blocks and across the window boundary, is not reached.",
     [D + "consumer.go"], [("record of completed blocks", D + "consumer.go MessageProcessor (completed LRU)"), ("per-block set of applied messages", D + "consumer.go PendingBatch.ApplyMessage")],
     ["number of emissions per block"])
prop("C04", "Tracked prefixes select exactly the matching part of a block",
     "A consumer that tracks some prefixes completes a block on the messages under those prefixes alone, and emits it with exactly the matching values, deletes and sub-batch data. Data outside the tracked prefixes is neither needed nor, when carried by messages rather than the header, included.",
     ["inputs", "configurations"], "every set of tracked prefixes, every schema, whether untracked messages are delivered or not",
     "Tests use one or two fixed prefix sets with all messages present.",
     [D + "consumer.go"], [("prefix filter in message and batch application", D + "consumer.go PendingBatch.ApplyMessage, whyNotReady")],
     ["content and moment of emission of blocks under random tracked prefixes"])
prop("C05", "The producer's messages account for every item of a block",
     "For each block the producer emits one header, and every value, delete and sub-batch item appears exactly once, on the topic of its prefix under the schema, announced by counters that equal the messages sent. Schemas and calls that break the rules (patterns that overlap or are invalid, a batch unknown, without an id, or at a path that also holds an item or counts messages) are refused with an error rather than producing a stream that can never complete.",
     ["inputs", "configurations"], "every schema, block and sequence of sub-batch and reorg calls",
     "The tests decode two or three fixed blocks under one schema.",
     [D + "producer.go", D + "types.go"], [("schema matching and counting", D + "producer.go Producer.AddBlock"), ("sub-batch numbering", D + "producer.go Producer.SendBatch")],
     ["messages returned by AddBlock, SendBatch, Reorg, decoded by an independent codec"])
prop("C06", "Chain updates form one continuous chain",
     "Starting from the block the consumer was told to start from, every chain update removes exactly a suffix of the chain applied so far and adds blocks that each follow their predecessor; an update that removes blocks ends at a heavier block. No update is empty, adds a block that was not delivered complete, or removes and re-adds the same block.",
     ["schedules", "histories", "inputs"], "every tree of blocks and every order, repetition and timing of their delivery",
     "The tests check continuity on a couple of dozen fixed shuffles of two small trees.",
     [D + "ordering.go"], [("emission and reorg decisions", D + "ordering.go HandlePendingBatch, prepareEmit, prepareReorg")],
     ["updates received by subscribers, replayed by a reference application"],
     state=[("head", "hash and weight of the last emitted block", D + "ordering.go"), ("queued", "blocks waiting, by parent", D + "ordering.go"), ("finished", "recent blocks a reorg may build on", D + "ordering.go")])
prop("C07", "The consumer converges on the heaviest delivered chain",
     "Whenever the consumer is quiescent, the applied head has the greatest weight among the delivered blocks that connect to its starting block through delivered blocks, and no delivered child of the head is left unapplied. This does not depend on delivery order; weights increase along each chain.",
     ["schedules", "histories", "inputs"], "every tree of blocks within the reorg threshold and every delivery order, evaluated at every quiescent point",
     "The tests look at the final head of a few fixed orders.",
     [D + "ordering.go"], [("weight comparison against the head and choice of the heaviest pending child", D + "ordering.go HandlePendingBatch, getPendingChild")],
     ["head of the applied chain at every point where no goroutine can run"])
prop("C09", "A whitelisted height admits only the whitelisted block and its descendants",
     "When a block hash is whitelisted for a height, no chain update ever adds a different block at that height or any descendant of one that arrives after it, however heavy. The rest of the chain converges as if the excluded blocks had not been delivered.",
     ["configurations", "histories", "schedules"], "every whitelist, tree and delivery order",
     "No test sets a whitelist.",
     [D + "ordering.go"], [("exclusion by whitelist and inherited exclusion", D + "ordering.go HandlePendingBatch")],
     ["blocks added by updates"])
prop("C10", "Reorgs within the threshold are honoured forever, in bounded memory",
     "However long the consumer has run, a heavier branch that forks off at most the reorg threshold of blocks below the head (with at most twice the threshold of blocks received since the fork) replaces the applied branch. Meanwhile the consumer retains a number of blocks bounded by the threshold, not by the length of the run.",
     ["histories", "schedules"], "every history of extensions and forks of any length",
     "Tests run at most about fifty blocks with a threshold larger than that, so eviction never happens.",
     [D + "ordering.go", D + "consumer.go"], [("bounded record of finished blocks whose eviction releases blocks", D + "ordering.go evict")],
     ["updates over runs many times the threshold; number of delivered blocks still reachable after garbage collection"])
prop("C24", "The wire format is the specified one, in both directions",
     "Keys, batch headers, sub-batch headers, values, deletes and reorg markers are encoded as the specification lays down, so that any conforming implementation can read the producer's output and be read by the consumer. Previously published byte sequences keep decoding to the same blocks.",
     ["inputs"], "every block and message shape, in both directions, against an independent codec",
     "The round-trip tests use the same code on both sides, so a symmetric change passes.",
     [D + "types.go", D + "producer.go", D + "consumer.go"], [("message types and Avro batch records", D + "types.go")],
     ["bytes produced and bytes consumed"])
prop("C11", "A restart from any emitted token loses no block",
     "The resumption token of an emitted block never lies beyond a message that block still needs. A consumer restarted from the token of the last applied block (going back by the rollback that covers how far sources run ahead of each other), with that block as its starting point, continues the chain without loss and without re-applying, and can do so again and again. Reading from a token gives the block itself again, and a token goes back no further than the block's first messages demand.",
     ["histories", "schedules", "inputs"], "every chain, partitioning, producer interleaving and read skew, every block to restart from, repeated restarts",
     "Tests check the token's text for a couple of messages; no test restarts a consumer from it.",
     [D + "consumer.go", T + "kafka.go"], [("minimum offset per source of the messages of a block, defaults for the other sources", D + "consumer.go updateResumption, resumptionCopy, Resumption")],
     ["tokens of emitted blocks; what a new consumer emits when sources are read from the token"],
     state=[("resumption", "per block, lowest offset of its messages by source", D + "consumer.go PendingBatch"), ("resumption defaults", "highest offset seen by source when the block's header came", D + "consumer.go MessageProcessor")])
prop("C12", "Waiters wake exactly when the block is applied, and never lie",
     "A wait returns Success only if the block (or, by number, a block of that number) was applied. It returns Success as soon as that happens when it happens within the timeout, and Timeout exactly at the timeout otherwise, for any block announced when the wait began and for at least 60 seconds after it was applied. It returns NotFound at once only for blocks not announced or forgotten, a block applied more than a minute ago is forgotten, a stopped waiter listens no more, and no wait hangs.",
     ["schedules", "histories"], "every history of announcements, applications, repeated deliveries and waits by hash and by number",
     "The tests wait for three blocks in fixed order with real-time sleeps.",
     [W + "waiter.go", D + "consumer.go"], [("announcement at the header, completion by Done", D + "consumer.go Waiter, PendingBatch.Done"), ("channels by hash and number kept for 60 s", W + "waiter.go ompWaiter")],
     ["call and return (virtual) times and results of waits against announcements and applications"])
prop("C19", "Malformed messages neither crash the consumer nor damage other blocks",
     "Whatever keys and values appear in the stream (too short, unknown types, undecodable counters and headers, out-of-range indexes, unknown hashes; for websockets, JSON of the wrong shape or with invalid fields), processing returns, without panic, and the well-formed blocks around them are emitted exactly as without them. No block or reorg is made up from a malformed message.",
     ["inputs", "histories"], "every malformed message at every point of every stream",
     "No test gives the consumer a malformed message.",
     [D + "consumer.go", T + "websockets.go"], [("key and value validation", D + "consumer.go ProcessMessage, ApplyMessage"), ("decoding of transport messages", T + "websockets.go websocketConsumer.Start")],
     ["panics, errors and blocks emitted"])
prop("C23", "A reorg marker rewinds every consumer once, in stream order",
     "A marker for a large reorg rewinds the consumer to the named block after everything before it in the stream and before everything after it. Each subscriber of reorg notices hears each marker once, in order. Blocks delivered on top of the named block afterwards are applied, whether they are new ones or ones applied before the rewind that are delivered again.",
     ["schedules", "histories"], "every placement of markers and every timing of the messages around them",
     "No test sends a reorg marker.",
     [D + "consumer.go", D + "ordering.go", T + "kafka.go", T + "websockets.go"], [("markers clear the completed set", D + "consumer.go ProcessReorg"), ("rewind of the head", D + "ordering.go HandleReorg")],
     ["updates and reorg notices received by subscribers"])
prop("C18", "Concurrent use is free of data races, deadlocks and crashes",
     "One consumer may be fed by several sources at once while others subscribe and unsubscribe, wait for blocks, ask why a block is not ready, and mark the same blocks applied. No execution has a data race, panics or deadlocks, within the processors or through the transports, end to end. Every block is still emitted once, every subscriber present throughout sees the same sequence of updates, and that sequence is a correct chain.",
     ["schedules"], "every interleaving of producers, subscribers, waiters, queries and acknowledgements",
     "The tests run one goroutine per consumer and are not run with the race detector; races depend on interleavings they never produce.",
     [D + "consumer.go", D + "ordering.go", W + "waiter.go", T + "kafka.go", T + "websockets.go", T + "resolver.go"],
     [("locks of the message and ordered processors", D + "consumer.go MessageProcessor, " + D + "ordering.go OrderedMessageProcessor"), ("hand-over to goroutines in the transports", T + "kafka.go, " + T + "websockets.go")],
     ["race detector reports, panics, lack of progress, emissions and updates under stress"])
prop("C28", "The consumer tells truthfully what a block is waiting for",
     "Asked about a block, the consumer answers that it does not know it exactly when it has no pending header, and otherwise names something that is really outstanding (a sub-batch, a prefix, a sub-batch message, the parent). It never says a block is ready while it still waits.",
     ["inputs", "schedules"], "every block, at every point of every delivery of its messages",
     "No test asks.",
     [D + "consumer.go", D + "ordering.go"], [("inspection of the counters of a pending block", D + "consumer.go PendingBatch.whyNotReady"), ("states of a complete block", D + "ordering.go WhyNotReady")],
     ["the answer compared with what an independent decoder finds outstanding"])
prop("C13", "Consumers of a Kafka cluster apply what the producers sent, whatever fails",
     "Blocks that producers send through a Kafka cluster, split over topics and partitions by their schema, reach every consumer of the cluster whole and with exactly the content sent, as one continuous chain that ends at the heaviest block sent, each block once however many producers send it. This holds while brokers delay, refuse and drop requests, as long as they serve them in the end.",
     ["inputs", "schedules", "fault_sequences"], "every stream, schema, placement of messages on partitions, set of producers, and sequence of broker delays, errors and lost connections",
     "The repository's tests would need a running Kafka for this and there are none; the in-memory tests never cross a transport, let alone a failing one.",
     [T + "kafka.go", D + "consumer.go", D + "producer.go"],
     [("grouping of a block's messages by topic and sending", T + "kafka.go KafkaProducer.emit, AddBlock"), ("consumption of partitions and hand-over to the processor", T + "kafka.go KafkaConsumer.Start")],
     ["updates of subscribed consumers compared with the blocks sent"])
prop("C14", "A Kafka consumer continues where its token says, without loss",
     "A consumer started with the resumption token and hash, number and weight of the block a previous consumer last applied, and a rollback that covers what was in flight, continues that chain to the heaviest block, without loss and without re-applying anything, even if messages before the rollback have expired or brokers fail meanwhile. It reads nothing from before the token less the rollback. A consumer started without a token begins with the blocks sent from then on. Stopping and restarting may be repeated any number of times.",
     ["histories", "crash_points", "fault_sequences"], "every stream, every sequence of stopping points, tokens, rollbacks, expired prefixes and broker failures",
     "No test restarts a Kafka consumer; the resumption code runs only against a live cluster.",
     [T + "kafka.go", D + "consumer.go"],
     [("offsets from the token, rolled back within the partition's bounds", T + "kafka.go NewKafkaConsumer, Start"), ("tokens of blocks", D + "consumer.go Resumption")],
     ["updates before and after each restart, replayed as one chain"])
prop("C27", "A token for a point in time covers every message from that time on",
     "The token given for a timestamp names, for every partition of every topic, the first message with that timestamp or a later one, or the partition's end if there is none. A consumer started from it therefore sees all messages from that time on and, per partition, none before. If a cluster does not tell, that is an error rather than a shorter token.",
     ["inputs", "histories"], "every distribution of messages over partitions and brokers, every point in time",
     "No test asks for a token by time.",
     [T + "kafka.go", T + "resolver.go"], [("offsets by time for each partition", T + "kafka.go kafkaResumptionForTimestamp"), ("combination over brokers", T + "resolver.go ResumptionForTimestamp")],
     ["the token compared with the cluster's recorded messages"])
prop("C20", "Producers in sync count one another's heartbeats",
     "A producer that is set healthy announces itself on the stream every 30 seconds, and one that is not does not. The producer count that consumers and producers report for a span is the number of distinct producers whose announcements arrived within that span.",
     ["histories", "schedules"], "every set of producers, times of announcements, changes of health and spans asked for",
     "No test runs heartbeats, which take 30 seconds and a cluster.",
     [T + "kafka.go", D + "consumer.go", D + "producer.go"], [("pings on a ticker while healthy", T + "kafka.go NewKafkaProducer, SetHealth"), ("last ping by source and count by age", D + "consumer.go ProducerCount; " + T + "kafka.go ProducerCount")],
     ["announcements written to the cluster, and counts reported, against recorded histories"])
prop("C21", "A Kafka producer sends each new block, and not those already on the feed",
     "A producer asked to add a block that is already on its feed, from before it started or sent by another producer since, does not send it or its batches again, and one asked to add a block that is not there sends all of it. Producers start on feeds that are empty, or whose messages have expired in part or altogether. After a producer is told to forget what it knows of the feed, it sends blocks again.",
     ["histories", "inputs", "configurations"], "every feed content and retention, every order of blocks added by this and other producers, any replay",
     "No test starts a Kafka producer; the record of what is on the feed is built from a live cluster.",
     [T + "kafka.go"], [("reading back the recent headers at start and following the feed", T + "kafka.go NewKafkaProducer"), ("skipping of known blocks", T + "kafka.go AddBlock")],
     ["messages the cluster received for each block"])
prop("C22", "The latest block on a feed is reported, with no lasting effect",
     "Asked for the latest block number, a Kafka producer answers with the highest number among the recent block headers on the feed, whatever other messages lie among them, on whichever partition, and however much of the feed has expired; on a feed without blocks it answers that there is none. Asking leaves no connections or activities behind.",
     ["histories", "inputs"], "every feed content, partitioning and retention",
     "No test asks.",
     [T + "kafka.go"], [("scan of the last messages of each partition", T + "kafka.go LatestBlockFromFeed")],
     ["the answer against the recorded feed; connections held open at the cluster"])
prop("C25", "Closing a consumer ends all its activity",
     "Closing a consumer, at any moment before, during or after it is started, once, repeatedly or concurrently, returns, and ends all its reading, connections, deliveries to subscribers, and the activities it began. Nothing a subscriber already received is affected, and the process neither panics nor hangs.",
     ["schedules", "crash_points"], "every moment of closing, every state of connections, backlogs and subscribers",
     "Tests do not close consumers in flight and do not look at what remains.",
     [T + "kafka.go", T + "websockets.go", T + "resolver.go"], [("close of partition readers and clients", T + "kafka.go KafkaConsumer.Close"), ("close of the connection and its loops", T + "websockets.go websocketConsumer.Close")],
     ["goroutines and connections remaining after Close; deliveries after it"])
prop("C26", "Options in a Kafka URL take exactly the effect they name",
     "Each option of a Kafka URL (brokers, credentials and SASL mechanism, TLS, fetch size and wait, acknowledgements, compression, retries and backoff, open requests, idempotence) sets the client behaviour it names and nothing else, whatever other options are there and in whatever order. A missing option, or one whose value is not a valid one, leaves the default: snappy compression, acknowledgement by all replicas, 100 retries, otherwise the client library's own. Clients log in to brokers that demand it with the right credentials, and not with wrong ones.",
     ["inputs", "configurations"], "every combination of options and values",
     "A single test checks a URL or two.",
     [T + "kafka.go"], [("reading of URL options into the client's configuration", T + "kafka.go parseKafkaURL")],
     ["resulting configuration; requests brokers receive; logins accepted and refused"])
prop("C29", "A consumer is ready only when it has caught up, and then always",
     "A consumer reports ready only after everything on the cluster (for websockets, in the application's store) when it was started has been read and handed to its subscribers. It does report ready once that is so, even when partitions are empty, expired, slow or unevenly loaded, and while new blocks keep coming at ordinary pace.",
     ["schedules", "histories"], "every backlog, distribution over partitions, pace of servers and of subscribers",
     "No test waits for a consumer of a transport to become ready.",
     [T + "kafka.go", T + "websockets.go"], [("high-water marks at start, and an idle second", T + "kafka.go KafkaConsumer.Start, Ready"), ("ready message after the replay", T + "websockets.go Streams, websocketConsumer.Ready")],
     ["moment of readiness against what the servers sent and subscribers received"])
prop("C15", "A websocket consumer applies what the producer sends, from where it starts",
     "A consumer of a websocket stream that starts from any block gets every block added after it, first those the producer's application has stored, then new ones, each once, with exactly the content given to the producer, as one continuous chain up to the heaviest block. It does not matter how many consumers there are, when each starts, or in which order and how concurrently the batches of announced blocks are sent. The protocol's messages, the replay, the ready message and blocks looked up by number carry exactly what was given, in order.",
     ["inputs", "schedules", "histories"], "every tree of blocks the application stores before announcing them, every starting point and time, every order and concurrency of batches",
     "No test runs a websocket producer or consumer.",
     [T + "websockets.go"], [("replay, then the live feed, without a gap", T + "websockets.go websocketStreamsService.Streams"), ("assembly of blocks from batches", T + "websockets.go websocketConsumer.Start")],
     ["updates of subscribed consumers compared with the blocks sent; messages read by an independent client"])
prop("C16", "A websocket consumer reconnects without losing or repeating blocks",
     "Whenever and however its connection is lost or refused (in the middle of a message, of a block, of a replay, before the subscription is confirmed), or its subscription fails, a websocket consumer connects again by itself and asks for what follows a block it has in full, with everything before it. In the end every block was delivered to its subscribers exactly once, as one continuous chain up to the heaviest.",
     ["fault_sequences", "schedules", "crash_points"], "every sequence of connection losses, refusals and failed subscriptions, at every byte and message",
     "No test runs a websocket consumer, let alone one that loses its connection.",
     [T + "websockets.go"], [("redial, resubscription and the last block delivered with all before it", T + "websockets.go websocketConsumer.Start")],
     ["blocks delivered to subscribers; subscriptions the server receives"],
     state=[("last block", "number and hash that the next subscription starts from", T + "websockets.go websocketConsumer")])
prop("C17", "Several sources and destinations work as one",
     "A consumer of several sources (Kafka clusters, websockets, null) applies every block that any of them carries once, as one continuous chain up to the heaviest, even if one of them stops serving or refuses to start; it is ready as soon as one of them is, counts the producers of all, continues from one token over all of them, and closes all of them. A producer for several destinations sends everything to each of them, whatever becomes of the others, and reports an error of any. Its latest block is the lowest among the destinations that know one; its health, reorg markers and replay apply to all.",
     ["inputs", "schedules", "fault_sequences", "configurations"], "every set of sources and destinations, every distribution of blocks over them, every failure of one",
     "No test combines transports; one test resolves a consumer of null sources.",
     [T + "resolver.go", T + "null.go"], [("several consumers feeding one ordered processor", T + "resolver.go ResolveMuxConsumer, muxConsumer"), ("fan-out to producers", T + "resolver.go muxProducer")],
     ["updates, readiness, counts and connections of the consumer; what consumers of each destination receive"])
prop("C30", "A producer finds or makes every topic it needs",
     "Starting a Kafka producer leaves every topic of its schema on the cluster: missing ones are created, with two partitions per broker, copies on up to three brokers and room for messages of 10 MB, and those that exist are left as they are. This holds also when several producers start at the same moment, however slow creation is: each of them starts, and what they then send reaches consumers. A partition of which the cluster does not tell offsets does not keep a producer from starting. If a topic has no name, or the cluster refuses to create it or hangs up, the result is an error rather than a producer. No connections remain of it but those of the producer itself.",
     ["schedules", "fault_sequences", "configurations"], "every schema, number of brokers, set of existing topics, moment of start of several producers, and refusal of the cluster",
     "No test creates topics.",
     [T + "kafka.go"], [("topic lookup, then creation, by several producers at once", T + "kafka.go CreateTopicIfDoesNotExist, NewKafkaProducer")],
     ["requests to create topics and topics on the cluster; results of starting producers; updates of consumers"])
prop("C31", "While catching up, partitions stay in step",
     "While a Kafka consumer catches up with what was on its partitions when it started, it does not run away with one of them: as long as some partition with messages left is stuck, no other is handled more than 256 steps beyond it, where a step is one message, or for partitions that start at higher offsets proportionally more messages than for the one that starts at the lowest. Partitions with nothing to catch up with, and those that have caught up, hold nobody up. This never blocks for good: after five seconds in which nothing was handled the others go on another 256 steps (once each partition has been heard from), and once the stuck partition is served again everything on all of them is handled and the consumer becomes ready.",
     ["inputs", "schedules", "fault_sequences"], "every distribution of messages over partitions and starting offsets, every partition stuck at every point",
     "Tests have no Kafka broker, and the existing ones do not start a Kafka consumer.",
     [T + "kafka.go", T + "pacer.go"], [("pacing of partitions until all have caught up, reset after standing still", T + "kafka.go KafkaConsumer.Start"), ("steps scaled by starting offset", T + "pacer.go")],
     ["blocks handed to subscribers, with the partition and position each came from; what brokers have handed out; readiness"])
prop("C32", "What cannot work is refused with an error",
     "Asking for a consumer, a producer, several of them, or a token by time gives an error within seconds - never a crash, a hang, or something that silently does nothing - if any of what was asked for cannot work: an unknown protocol (or none, or one that the call does not support), a broker URL that can't be parsed or under which nobody answers, a resumption token with an offset that is no number, a topic of which offsets are wanted but that does not exist, a schema that is no regular expression, a websocket producer without a port or without blocks to serve. Starting a consumer of a topic that does not exist gives an error; among several consumers, starting is an error if none of them starts, and those that did start work. Closing after that leaves no connections.",
     ["inputs", "configurations"], "every URL, token and topic list, in every position among valid ones, for every call that takes them",
     "Tests use one correct websocket URL and null consumers.",
     [T + "resolver.go", T + "kafka.go", T + "websockets.go"], [("choosing a transport by protocol", T + "resolver.go"), ("parsing of URLs and tokens, connecting", T + "kafka.go ParseKafkaURL, kafkaConsumerWithOMP, NewKafkaProducer"), ("ports and resumers", T + "websockets.go NewWebsocketProducer")],
     ["results of the calls; crashes; connections to brokers"])
