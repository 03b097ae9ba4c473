"""Writes properties.jsonl (the list is edited here)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe),
                          "hook_needed": None}})


p("C01", "A counter file is a ring that never loses, mixes or invents buckets",
  "Within the window of the newest N intervals, a counter file shows for each interval exactly the combination (merge, replace, or fill, according to the file's kind and the update mode) of the updates accepted for it, and nothing for an interval that received none. An update older than the window is refused and changes nothing, an update newer than the window advances it and never backwards. Reads, header fields and cumulative totals agree with this after any sequence of updates, flushes and reopenings, whatever wraps around.",
  ["inputs", "histories", "configurations"],
  "every sequence of updates, reads, flushes and reopenings; every interval length, ring size and kind; any times before, within and after the window",
  "test_StatFile replays a few hand-picked sequences; the ring arithmetic (wrap-around, page edges, times before creation, gaps longer than the ring) has unboundedly many cases",
  ["lib/StatFile.cpp", "lib/Bucket.cpp", "include/istat/StatFile.h", "include/istat/Bucket.h"],
  [("StatFile::rawUpdateBucket / updateBucket", "lib/StatFile.cpp"), ("mapTimeToBucketIndex, isBucketIndexInFile, mapBucketIndexToFileIndex", "lib/StatFile.cpp"),
   ("readBuckets and the page cache", "lib/StatFile.cpp")],
  [("last_bucket, first_bucket, last_time", "window of the ring", "include/istat/Header.h"), ("pages[]", "mapped pages", "include/istat/StatFile.h")])

p("C02", "A counter file survives a crash at any write and is never damaged by opening",
  "If the process dies between any two writes, the counter file can be opened again and every bucket in it is one that had been stored there, whole: what was flushed and not changed since is intact. A file that is short is extended without losing what it holds; one that is damaged or too new is refused and left as it was; one opened read-only is not changed. Reopening keeps the file's own interval, size and kind whatever settings are passed.",
  ["crash_points", "histories", "configurations"],
  "every point between two write-back operations in creation, update, flush, page eviction and close; truncated and damaged files",
  "no test kills the process between two writes; the tests only reopen files closed in order",
  ["lib/StatFile.cpp", "lib/Mmap.cpp"],
  [("StatFile::open / writeNewHeader", "lib/StatFile.cpp"), ("StatFile::flush, mapBucketPage eviction", "lib/StatFile.cpp")])

p("C03", "A gauge sample reaches every retention file once, or is rejected by all",
  "A gauge counter records an accepted sample into every one of its retention files, so that at each resolution the bucket of its interval has the count, sum, sum of squares, minimum and maximum of the samples accepted in it. A sample with no count, with an inconsistent minimum/average/maximum, or from more than a minute in the future changes no file and is counted as rejected. Results do not depend on the order of arrival as long as samples are within each file's window.",
  ["inputs", "histories", "configurations"],
  "every sequence of samples (in order, late, early, invalid), any retention policy",
  "test_StatCounter checks a handful of sequences with one policy",
  ["daemon/StatCounter.cpp", "lib/StatFile.cpp"],
  [("StatCounter::record, gauge branch", "daemon/StatCounter.cpp")])

p("C04", "Every accepted event is counted exactly once at every resolution",
  "For an event ('*') counter, the sum over time of what is stored at each resolution, once all pending intervals have been flushed or the counter closed, equals the sum of the accepted events divided by the resolution, attributed to the interval each event belongs to. An event later than now plus one interval or earlier than the oldest pending interval is refused, counted as refused, and changes nothing. Flushing at any moment, pauses of any length, and closing and reopening neither lose nor double-count an event.",
  ["inputs", "histories", "schedules"],
  "every interleaving of events (in order, late, repeated), clock advances, flushes, forced flushes and restarts",
  "the tests check fixed sequences; the collation window, the power-of-two early writes and the shift on flush interact in unboundedly many ways",
  ["daemon/StatCounter.cpp", "daemon/StatCounter.h"],
  [("record (collated branch), maybeShiftCollated, shiftCollated, fullyShiftCollated, flush, destructor", "daemon/StatCounter.cpp")],
  [("collations_", "window of pending intervals", "daemon/StatCounter.h")])

p("C05", "A query returns the stored data of its range, reduced without loss",
  "A query reads the finest retention file that still reaches back to its start, and returns buckets in increasing time order, aligned to the interval it reports, inside the normalized range. The reported interval is the file's or the first permitted coarser one that keeps the result within the requested maximum number of samples; each returned bucket is exactly the combination of the stored buckets inside it. For event counters an idle interval inside the range counts as zero.",
  ["inputs", "histories", "configurations"],
  "every start, end, maximum number of samples, retention policy and stored history",
  "tests use a few ranges on one data set",
  ["daemon/StatCounter.cpp", "lib/StatFile.cpp"],
  [("StatCounter::select, pickStatFile, normalizeRange, readBucketsFromFile, reduce", "daemon/StatCounter.cpp")])

p("C06", "A seasonal (trailing) file averages each interval with the season before",
  "In a trailing file an interval written out holds the samples recorded for it while it was pending, whatever the order they came in among the intervals pending, averaged exponentially with the value exactly one season earlier if the file still has that interval, and by themselves otherwise; closing and flushing write out what is pending, and a file is made long enough for its season. Gaps of any length and any season length neither read nor write outside the file or another interval's value.",
  ["inputs", "histories", "configurations"],
  "every sequence of updates and flushes, any season, interval and decay",
  "test_StatFile follows one regular schedule of updates",
  ["lib/StatFile.cpp", "lib/Bucket.cpp"],
  [("getTrailingBucket, flushOneExpBucket", "lib/StatFile.cpp"), ("Bucket::expUpdate", "lib/Bucket.cpp")])

p("C07", "A sample is stored under its name and its enclosing names, across restarts",
  "A sample for a counter name is recorded once in that counter and once in each enclosing name up to the configured aggregation depth, and in no other counter, after mapping characters not allowed in names. A name that begins with '*' creates an event counter, and the kind a counter was created with is kept afterwards and after a restart, when the store finds every counter that was stored. Distinct legal names never share a counter.",
  ["inputs", "histories", "configurations"],
  "every set and order of counter names (nested, prefixing, odd characters), aggregation depths, restarts",
  "tests use a few names; nesting, prefix conflicts and restart interact",
  ["daemon/StatStore.cpp", "daemon/StatCounterFactory.cpp", "lib/strfunc.cpp"],
  [("StatStore::record, aggregate, openCounter, scanDir", "daemon/StatStore.cpp"), ("munge, stripext", "lib/strfunc.cpp")])

p("C08", "Deleting counters removes exactly the counters asked for, and only once",
  "Deleting a counter or pattern removes the matching counters from the store and from disk, keeps a backup of their files, and touches no other counter. A deleted counter no longer answers queries, appears in listings or receives rollups, and recording its name again starts an empty one. Samples and events still pending when a counter is deleted, or recorded while the deletion is at work, may be dropped, without harm to anything else.",
  ["histories", "schedules", "inputs"],
  "every order of records, queries, flushes, listings and deletions of names and patterns",
  "the tests delete one counter at a quiet moment",
  ["daemon/StatStore.cpp", "daemon/StatCounter.cpp", "daemon/StatServer.cpp"],
  [("StatStore::deleteCounter, deletePattern, DeleteIfMatch, pruneEmptyDirsNow", "daemon/StatStore.cpp"), ("StatCounter::purge", "daemon/StatCounter.cpp")])

p("C09", "A flush that reports completion has written everything received before it",
  "When a flush reports that it is complete, every sample received before it was requested is in the counter files, so that a crash right after loses none of them; for event counters this covers all intervals no longer able to change. Every flush request is answered exactly once, also when several overlap with each other or with deletions. Shutting down in an orderly way writes everything.",
  ["schedules", "histories", "crash_points"],
  "every schedule of records, overlapping flush requests, deletions and the per-counter queues; a crash after the reply",
  "tests do one flush at a time and let the process live",
  ["daemon/StatStore.cpp", "daemon/Signal.cpp", "daemon/LoopbackCounter.cpp"],
  [("StatStore::flushAll, Flusher / RefreshBase scheduling, strands", "daemon/StatStore.cpp")])

p("C10", "Each input line has its one effect however the bytes arrive",
  "The effect of what a client sends depends only on the sequence of complete lines, not on how the bytes are split, and of each datagram only on its own content. A malformed line is rejected on its own, without effect on any counter or on the lines before or after it, and a valid one records exactly the name, time and value(s) it says in every name its '^' alternatives expand to. One client's input never mixes with, delays forever or corrupts another's.",
  ["inputs", "schedules", "histories"],
  "every sequence of lines, valid or not, every segmentation, several clients, TCP and UDP",
  "tests send whole lines",
  ["daemon/StatServer.cpp", "daemon/EagerConnection.cpp", "lib/strfunc.cpp", "daemon/main.cpp"],
  [("handle_cmd, handle_record, handle_counter_cmd, extract_ctrs", "daemon/StatServer.cpp, lib/strfunc.cpp"), ("EagerConnection::readUntil / on_read", "daemon/EagerConnection.cpp")])

p("C11", "An agent forwards every sample exactly once, combined per counter and interval",
  "Every sample an agent accepts for forwarding is sent upstream once, over one of its connections, merged with the other samples of its counter in the same ten-second interval: the line has their sum, sum of squares, minimum, maximum and count, and a time within the interval; nothing of different counters or intervals is merged, and event counters stay events; a sample more than 30 s before or 10 s after the interval in which its counter's collection began is not accepted. A forced flush sends everything pending, and is answered when it, and what earlier rounds took, has been written; while a connection is away its share is kept for it; only after more than three rounds without it may data be given to others or, if there are none, be dropped.",
  ["inputs", "histories", "schedules"],
  "every sequence of samples, clock advances, forced flushes, several upstream connections opening and closing",
  "tests forward a few samples",
  ["daemon/StatServer.cpp", "daemon/Bucketizer.cpp", "daemon/Bucketizer.h"],
  [("Bucketizer::update, moveBack, flush", "daemon/Bucketizer.cpp"), ("StatServer::handle_forward, clear_forward, purge_forward", "daemon/StatServer.cpp")])

p("C12", "Forwarded data is delivered in whole lines, in order, across reconnects",
  "What a connection writes reaches the other side as whole lines in the order they were written, each at most once, with no line split or merged by a reconnect. When the other side is away, lines are kept up to a fixed limit and then the connection discards whole lines only, and it keeps trying to reconnect. A reconnect introduces the agent again with its identification before any data.",
  ["schedules", "fault_sequences", "histories"],
  "every schedule of writes, partial writes, disconnects, failed connects and reconnects",
  "tests use one connection that stays up",
  ["daemon/EagerConnection.cpp", "daemon/StatServer.cpp"],
  [("EagerConnection::writeOut, startWrite, on_write, tryConnect, scheduleReconnect", "daemon/EagerConnection.cpp")])

p("C13", "Settings keep the last value written, and saving never loses the old file",
  "A setting reads back the last value set in its section, other keys and sections are unaffected, and listing by pattern shows exactly the matching keys. After a save completes, loading gives the same values for any keys and values the interface accepts, and if saving fails or the process dies at any moment, either the old or the new complete settings file remains. Section names cannot reach outside the settings directory.",
  ["inputs", "histories", "crash_points"],
  "every sequence of set, get, save, load over any strings; a crash or failure at each step of a save",
  "tests write and read a few plain values",
  ["daemon/Settings.cpp", "lib/strfunc.cpp"],
  [("RealSettings::save/load/set/get, SettingsFactory::open", "daemon/Settings.cpp"), ("sql_quote / sql_unquote", "lib/strfunc.cpp")])

p("C14", "The Prometheus endpoint reports every counter once and in valid form",
  "For each counter reported since start, the exporter's output has a sample line with a valid name, after a line that states the type of that name; for an event counter its value is the sum of all events received, never decreasing, and for a gauge the samples of recent intervals with their times. Data is not lost or repeated because scrapes, updates and cleanup interleave. Anything else than a plain GET of the metrics is refused.",
  ["inputs", "histories", "schedules"],
  "every sequence of samples, scrapes and clock advances",
  "tests scrape a few metrics once",
  ["daemon/PromExporter.cpp", "daemon/PromExporter.h"],
  [("PromMetric, PromExporter::dumpMetrics / cleanup / enable", "daemon/PromExporter.cpp")])

p("C15", "A blacklisted agent is turned away, and only those listed",
  "An agent connected by TCP whose latest announced hostname is on the blacklist last read is disconnected when it sends its next line, and that line and all after it have no effect, whatever the letter case; an agent whose hostname is not listed is never disconnected for it, nor for what another agent or a datagram announced. Changes of the blacklist file take effect at the next check after its modification, in both directions; a blacklist file that is missing or unreadable at start blocks nobody; if it goes missing later the last list read stays in effect.",
  ["inputs", "histories", "schedules"],
  "every content and sequence of edits of the file, and order of announcements and checks",
  "tests use one static file",
  ["daemon/Blacklist.cpp", "daemon/StatServer.cpp"],
  [("Blacklist::load / contains / startRead", "daemon/Blacklist.cpp"), ("StatServer::handle_meta_info", "daemon/StatServer.cpp")])

p("C16", "Replication messages are framed exactly, and bad ones only end the connection",
  "A message written by one side is delivered to the other with its type and payload unchanged, in order, however the bytes are split. A header with an impossible length, or a connection that ends, is reported once and nothing is delivered after it. A replica applies exactly what the protocol messages say and answers a malformed one by ending the connection without harm.",
  ["inputs", "schedules"],
  "every sequence of messages, payload sizes and segmentations; malformed headers and payloads",
  "tests deliver whole messages",
  ["daemon/PduProtocol.cpp", "daemon/ReplicaPdus.cpp", "daemon/ReplicaServer.cpp", "daemon/ReplicaOf.cpp", "daemon/PduProtocol.h"],
  [("PduReaderActor::on_data / on_header, PduWriterActor", "daemon/PduProtocol.cpp")])

p("C17", "Listings name exactly the existing counters that match the pattern",
  "Listing with a pattern returns each existing counter whose name matches, once, and each enclosing name as a non-leaf, and nothing else, where '*' matches any sequence of characters and '?' any sequence without a period. A counter created before a listing began is in it, also while others are created, deleted or the list is refreshed. Concurrent creation of the same counter yields one counter, without deadlock.",
  ["inputs", "schedules", "histories"],
  "every set of names and every pattern; every interleaving of creation, deletion, refresh and listing",
  "tests match a few patterns on a quiet store",
  ["daemon/AllKeys.cpp", "daemon/AllKeys.h", "daemon/StatStore.cpp", "lib/strfunc.cpp"],
  [("AllKeys::match / add / delete_all", "daemon/AllKeys.cpp"), ("str_pat_match", "lib/strfunc.cpp")])

p("C18", "The HTTP query interface answers each request for itself, correctly",
  "A single-counter or multi-counter request is answered with the buckets the store holds for the named counters and range, one entry for each requested key, with the start, stop and interval that apply. A malformed, oversized or unknown request gets an error status and does not affect other requests, however the bytes arrive and whatever is requested at the same time. Files are served only from the files directory.",
  ["inputs", "schedules"],
  "every request (method, path, parameters, body, headers) and segmentation, several in parallel",
  "tests make a few well-formed requests",
  ["daemon/HttpServer.cpp", "daemon/StatServer.cpp", "daemon/RequestInFlight.cpp", "daemon/main.cpp"],
  [("HttpRequest::on_header / on_body / parseMethod", "daemon/HttpServer.cpp"), ("HttpCounterQuery / MultigetTop", "daemon/RequestInFlight.cpp")])

p("C19", "Configuration means what it says, or is refused",
  "A retention policy is accepted exactly when each of its parts (interval:length[:name[:decay]]) has a valid interval and a length of at least one interval, its decay if any is a number between 0 and 1, intervals without decay come first and get longer, and no two have the same name; each interval then has the length, the whole number of samples, the name (the interval if none is given) and the decay that were stated. Options on the command line and in a settings file are applied in order, the last one given wins, and the others keep their values; the first option that is unknown, malformed or without its value is refused at its place (in a file, with the number of its line; remarks and blank lines are skipped but counted). A length of time with units means the sum of its parts, and what is written for a number of seconds reads back as that number.",
  ["inputs", "configurations"],
  "every retention string, option list and settings file",
  "tests parse a few strings",
  ["daemon/Retention.cpp", "daemon/Argument.cpp", "lib/strfunc.cpp"],
  [("RetentionPolicy::addInterval(s)", "daemon/Retention.cpp"), ("ArgumentBase::parseArg / parseData", "daemon/Argument.cpp"), ("interval_to_seconds / seconds_to_interval", "lib/strfunc.cpp")])

p("C20", "The server's own counters lose no increment and are reported once",
  "Every increment of a statistic istatd keeps about itself, by any thread and through any copy of it, is counted once, and none is lost because a handle is destroyed, the store is not there yet, or the state of the server is asked for. Each time the statistics are sampled, each event statistic is written to the store under its name with the amount since the last sampling and each count with its present value; a gauge is written whenever it is given a value. The HTTP and administration servers count their requests, errors, connections and commands so.",
  ["schedules", "histories"],
  "every interleaving of increments from several threads with sampling and destruction",
  "tests sample once from one thread",
  ["daemon/LoopbackCounter.cpp", "daemon/LoopbackCounter.h"],
  [("LoopbackCounter::value / sample / iterate", "daemon/LoopbackCounter.cpp")])

p("C21", "The agent registry shows each connected agent's latest self-description",
  "Asking for agents shows as online exactly the senders now connected that have sent something, each with the latest value it gave for each attribute, the time it was first heard of, the time it was last heard of and its address; an agent that disconnects is no longer shown as online, one agent's attributes never appear in another's entry, and a purge removes exactly the records of agents that are not online and too old or too many. Queries never disturb ingest.",
  ["histories", "schedules"],
  "every sequence of connects, attribute lines, disconnects and queries",
  "tests connect one or two agents",
  ["daemon/StatServer.cpp", "daemon/StatServer.h"],
  [("StatServer::handle_meta_info, getMetaInfo / agent query", "daemon/StatServer.cpp"), ("MetaInfo", "daemon/IStatServer.h")])

p("C22", "Offline tools copy, import and dump buckets without changing their data",
  "Importing or transplanting data into a counter file leaves it with exactly the source's buckets in the requested range and mode, and leaves intervals outside the range as they were. Dumping a file prints every live bucket once in time order, and importing that output reproduces the file. A tool refuses arguments that do not fit together before changing anything.",
  ["inputs", "configurations"],
  "every pair of files, ranges and options",
  "tests run the tools on a few files",
  ["tool/istatd_import.cpp", "tool/istatd_transplant.cpp", "tool/istatd_filedump.cpp"],
  [("main", "tool/istatd_import.cpp")])

p("C23", "The splitter copies the client's stream to every target unchanged",
  "Every byte a client sends through the splitter reaches every target, in order and unchanged. The client gets back exactly the bytes of the first target, in order; what other targets send is discarded. When any of the connections of a session ends, all of that session end, and other sessions are not affected.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of client and target traffic and disconnects, any number of targets and sessions",
  "the splitter has no tests",
  ["splitter/main.cpp"],
  [("listen_loop, setup_splits, closeall", "splitter/main.cpp")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    for x in P:
        for a in x["anchors"]["files"]:
            if not os.path.exists("/repo/" + a):
                print("missing", x["id"], a)
