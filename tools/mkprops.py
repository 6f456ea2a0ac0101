#!/usr/bin/env python3
# Writes ../properties.jsonl (kept as code so that the long lines stay reviewable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A failed read is never reported as a successful dump",
  "If reading the input fails before its end (standard input, -f file, clipboard, or an HTTP response body, at any byte and with any error other than a clean end of data), the command exits non-zero, prints an error on standard error and writes no dump to standard output, and the library call returns an error. An error that merely wraps an end-of-file, or that arrives together with data, is still a failure. (--debug, which by design shows errors on standard output, is aside.)",
  ["fault_sequences", "inputs"], "every input, every source, every byte offset at which the read fails, every error kind, every chunking before it",
  "The tests feed strings and files that always read to the end; no reader in them ever fails, so which read error is swallowed, and where, is never sampled.",
  ["parse/parser.go", "armtext/armtext.go", "facade/facade.go", "facade/fetch.go", "facade/hkp.go", "facade/github.go", "facade/clipboard/clipboard.go", "github/github.go", "hkp/hkp.go", "parse/tags/packets.go"],
  [("reader construction returns the read error", "parse/parser.go New"), ("scanner error check", "armtext/armtext.go Get"), ("errors propagate to the exit status", "facade/facade.go Execute"), ("body read error is returned", "github/github.go Get, getInPage")],
  observe=["exit status, stdout and stderr of facade.Execute", "error of parse.New / Parser.Parse / Packets.Next"])

p("C02", "The dump depends only on the input bytes, not on how they arrive",
  "For the same input bytes and options the result (dump text or error outcome) is identical however the bytes are delivered: any chunk sizes, empty reads, end-of-file together with the last bytes or after them, any latency, and any map iteration order or number of repetitions.",
  ["schedules", "inputs"], "every input and every legal io.Reader / HTTP delivery schedule of it",
  "Tests read from in-memory buffers that deliver everything in one read; chunk boundaries and EOF placement are never varied.",
  ["parse/parser.go", "armtext/armtext.go", "parse/tags/packets.go", "parse/reader/reader.go", "parse/values/ecc.go", "parse/context/options.go"],
  [("line scanner and full reads instead of single reads", "armtext/armtext.go Get, parse/tags/packets.go Next"), ("unordered tables are only looked up", "parse/values/ecc.go OID.String")],
  observe=["stdout/exit of facade.Execute", "result.Info of the library API"])

p("C03", "The dump is the same from every source and around every kind of text",
  "The same OpenPGP data with the same options gives the same dump from standard input, -f, fetch, hkp, github (profile or --keyid), the clipboard and the library calls. Surrounding text before and after the armored block, a cleartext-signed message, armor headers, CRLF line ends and different line lengths do not change the dump.",
  ["configurations", "inputs"], "every document, every source that can carry it, every surrounding text, every delivery schedule",
  "Tests exercise stdin and -f with a few fixed files; the network and clipboard sources are never run.",
  ["facade/facade.go", "facade/fetch.go", "facade/hkp.go", "facade/github.go", "facade/clipboard/clipboard.go", "armtext/armtext.go", "parse/parser.go"],
  [("all sources share one parser entry", "parse/parser.go New, NewBytes"), ("armor block extraction", "armtext/armtext.go Get"), ("armor-only mode forced for text sources", "facade/hkp.go, facade/github.go, facade/facade.go")],
  observe=["stdout of facade.Execute for each source"])

p("C04", "A dump accounts for every packet; a stream cut inside one is an error",
  "A complete, well-formed input is never rejected, and its dump lists every packet exactly once, in order, each with its tag and its exact body length (also the packets inside a compressed packet and inside a key block; a compressed packet within these is listed itself, but not expanded), for all header formats and any size or number of packets. Within a listed packet, the dump likewise lists every subpacket of a signature or user attribute (type and order) and every multi-precision integer of the known algorithms with its bit length. A stream that ends inside a packet's header or body, or an armored text cut before its end line, gives an error; one cut exactly between packets is dumped as the packets before the cut.",
  ["inputs", "crash_points"], "every packet sequence, header format and size; every byte at which the stream can end",
  "Tests check a handful of complete sample files of a few kilobytes; a cut at an arbitrary byte, large packets and unusual header formats are not sampled.",
  ["parse/parse.go", "parse/parser.go", "parse/tags/packets.go", "parse/tags/Tag08.go", "parse/tags/sub38.go", "parse/tags/tags.go", "parse/reader/reader.go", "parse/result/result.go"],
  [("packet loop ends only on a clean EOF", "parse/parse.go Parse"), ("nested loops for compressed data and key blocks", "parse/tags/packets.go Parse, parse/tags/sub38.go parseKeyData"), ("length note on every packet item", "parse/values/tagid.go ToItem")],
  observe=["packet items (name, note) of the JSON dump", "exit status"])

p("C05", "A packet body that ends inside a mandatory field is reported",
  "When the data of a packet (or of a subpacket, embedded signature or session-key/S2K structure inside it) ends in the middle of a fixed-size or length-prefixed field that its type and version require and that the dump decodes into a value, the run ends in an error and no dump is printed; it is never shown as if it were complete.",
  ["inputs", "crash_points"], "every packet type, version and algorithm; every offset inside the mandatory fields at which the body ends (indeterminate-length stream cut there, or a writer that flushed a short body)",
  "Tests have a few hand-written short bodies per tag; they cover neither all field boundaries nor all nested structures.",
  ["parse/tags", "parse/pubkey", "parse/s2k/s2k.go", "parse/values/mpi.go", "parse/values/datetime.go", "parse/reader/reader.go"],
  [("exact-length reads with error on shortage", "parse/reader/reader.go ReadBytes"), ("every field read is checked", "parse/tags/tag*.go, parse/tags/sub*.go, parse/pubkey/*.go, parse/s2k/s2k.go")],
  observe=["exit status and stdout", "error of Parser.Parse"])

p("C06", "Armored data altered in transit is never dumped as if it were good",
  "If the base64 lines or the checksum line of an armored block that carries a checksum are altered, lost, repeated or swapped so that data and (still well-formed) checksum disagree, the run ends in an error and prints no dump. If such a damaged input is dumped successfully, the dump equals that of the undamaged input.",
  ["fault_sequences", "inputs"], "every armored document and every corruption of its body and checksum lines, from every source",
  "Tests contain one corrupt file; corruption position, kind and source are not varied.",
  ["parse/parser.go", "armtext/armtext.go", "parse/parse.go", "parse/tags/packets.go"],
  [("CRC-24 verified when the armored body reaches its end", "parse/parser.go newReaderArmor (armor.Decode body reader)"), ("the packet loop reads to the end and keeps the error", "parse/parse.go Parse")],
  observe=["exit status and stdout"])

p("C07", "A failed write is reported, and what was written is a prefix of the dump",
  "If standard output fails or accepts only part of the data at any byte (full disk, closed pipe, short write), the command exits non-zero, whatever command and format is in use (dump, --raw, completion, also version on its stream). The bytes that were accepted are exactly a prefix of the fault-free output.",
  ["fault_sequences", "configurations"], "every command, format and input; every byte offset at which the output stream fails and every failure kind",
  "Tests write to memory buffers that never fail.",
  ["facade/facade.go", "facade/fetch.go", "facade/hkp.go", "facade/github.go", "facade/completion.go", "facade/version.go", "parse/result/result.go"],
  [("the error of WriteFrom is returned by the command", "facade/*.go"), ("rendering is complete before anything is written", "facade/facade.go marshalPacketInfo")],
  observe=["exit status, accepted bytes"])

p("C08", "--raw passes the server's bytes through unchanged, or fails",
  "With --raw, fetch, hkp and github write exactly the bytes the server sent as its response body (for github --keyid, exactly the selected key's armored text) and exit zero, or they exit non-zero; they never alter, drop, repeat or add bytes, whatever the content and however it is delivered.",
  ["fault_sequences", "inputs"], "every response body (binary included), every delivery schedule, redirect chain and failure point",
  "No test runs a network command.",
  ["facade/fetch.go", "facade/hkp.go", "facade/github.go", "github/github.go", "hkp/hkp.go"],
  [("body copied to the output unchanged", "facade/fetch.go, facade/hkp.go, facade/github.go (WriteFrom)")],
  observe=["stdout and exit status"])

p("C09", "GitHub key lookup finds the key on any page, or says why not",
  "github --keyid (and the library lookup) walks the pages of the user's key list in order and returns the armored text of the first key whose ID matches, ignoring case and an optional 0x prefix, asking for no page beyond the one that decides. If there is no such key (or it has no armored text) it fails with the 'no key' error, and if any page it needs cannot be fetched or understood it fails with the 'invalid request' error; it never returns another key or an empty success.",
  ["inputs", "fault_sequences"], "every key list and page count, every position of the match, every failure (status, reset, truncation, bad JSON) at every page",
  "The only GitHub tests need the real network and cover no failure and no second page.",
  ["github/github.go", "github/structs.go", "facade/github.go", "ecode/ecode.go"],
  [("page loop until a short page", "github/github.go GetKey"), ("page fetch and decode errors wrapped", "github/github.go getInPage")],
  observe=["returned bytes and error of github.GetKey", "requests seen by the simulated server", "stdout/exit of the github command"])

p("C10", "Interrupting a network command stops it promptly and unsuccessfully",
  "If the user interrupts (or the caller cancels the context) at any instant before the response is complete - before a request, while waiting, in the middle of a body, between pages - the operation ends with an error within a bounded number of events, prints no dump and sends no further request.",
  ["schedules", "fault_sequences"], "every instant of the interrupt relative to every network event of fetch, hkp, github and the library calls, servers that stall forever included",
  "No test cancels anything; timing of an interrupt cannot be sampled by plain tests.",
  ["facade/fetch.go", "facade/hkp.go", "facade/github.go", "github/github.go", "hkp/hkp.go"],
  [("context with SIGINT passed to every request", "facade/*.go signal.Context"), ("context handed on by the library", "github/github.go, hkp/hkp.go fetch.WithContext")],
  observe=["exit status, requests seen by the server, event count after the interrupt"])

p("C11", "Every file and response body that was opened is closed on every path",
  "When a command or library fetch returns, on success and on every failure path (HTTP error status, broken body, damaged packets, failing output, interrupt), each file and each HTTP response body it opened has been closed; the reader handed out by the key-server library call is closed by its caller.",
  ["fault_sequences"], "every command and library fetch and every failure point",
  "Tests never observe closing and never take the failure paths.",
  ["facade/facade.go", "facade/fetch.go", "facade/hkp.go", "github/github.go"],
  [("deferred Close", "facade/facade.go, facade/fetch.go, facade/hkp.go, github/github.go getInPage"), ("read-all-and-close", "github/github.go Get")],
  observe=["open handles of the simulated file system and network at return"])

p("C12", "Concurrent library users do not influence each other",
  "Goroutines that each use their own context, parser, server or client objects get exactly the result they would get alone, whatever the interleaving, and share no unsynchronised mutable state (no data race).",
  ["schedules"], "every interleaving of any number of concurrent parses, renderings and fetches",
  "All tests are sequential.",
  ["parse", "github/github.go", "hkp/hkp.go", "armtext/armtext.go", "parse/context/context.go", "parse/values"],
  [("all parse state lives in per-call objects", "parse/context/context.go, parse/parser.go, parse/tags/packets.go"), ("package tables are read-only after init", "parse/values/*.go, parse/tags/tags.go, parse/tags/subs.go")],
  observe=["per-task results against solo results", "race detector under the simulated schedule"])

p("C13", "An invocation's outcome does not depend on what ran before it",
  "Running commands or parses one after another in a process gives each the same output and exit status as running it alone in a fresh process, whatever the earlier ones were - including ones that failed, were interrupted or used other options.",
  ["histories"], "every sequence of invocations with any options, inputs and faults",
  "Each test runs one invocation and resets nothing on purpose; sequences are accidental.",
  ["facade/facade.go", "facade/debug.go", "parse/context/context.go", "parse/tags"],
  [("flags are rebound for every invocation", "facade/facade.go newRootCmd"), ("a fresh context per parse", "facade/facade.go parseContext")],
  state=[("versionFlag, jsonFlag, cbFlag, debugFlag, indentSize, filePath", "package-level option values", "facade/facade.go")],
  observe=["exit, stdout, stderr of each step against a fresh process"])

p("C14", "Damaged or hostile input never crashes or hangs the program",
  "For every byte sequence - bits flipped, bytes lost, repeated or inserted, lengths and versions tampered with, nested structures cut short - and for every server reply, the program and the library finish with a result or an error; they never panic, and their work and memory grow in proportion to the size of the input (compressed data, up to its 1 GB limit, counts as expanded).",
  ["inputs", "fault_sequences"], "every corruption and truncation of every packet structure, every option set, every server reply and user name",
  "Tests feed valid packets and a few short bodies; they do not combine corruption with the nested structures.",
  ["parse/tags", "parse/pubkey", "parse/values", "parse/s2k/s2k.go", "parse/reader/reader.go", "armtext/armtext.go", "github/github.go", "facade/facade.go"],
  [("bounds-checked reader", "parse/reader/reader.go"), ("errors checked before use", "parse/tags/*.go, parse/pubkey/*.go, github/github.go")],
  observe=["panic / 'Panic:' on stderr", "step counter of the instrumented code"])

p("C15", "Times do not depend on the clock, and with -u not on the time zone",
  "With -u every time in the dump is in UTC and the whole dump is the same in every time zone, also if the zone changes during the run. Without -u the dump differs only in that the same instants are written in the local zone's offset at that instant; the current time never influences a dump. Each timestamp of the input is shown as exactly that instant.",
  ["configurations", "schedules"], "every time zone (daylight saving and odd offsets included), every instant at which zone or clock changes, every timestamp in the input",
  "Tests run in one zone (the ones in other zones are not stable) and at one clock reading.",
  ["parse/values/datetime.go", "parse/values/expire.go", "parse/tags/tag11.go", "parse/tags/tag02.go", "parse/tags/pubkey.go", "parse/tags/sub02.go", "parse/tags/sub03.go", "parse/tags/sub09.go"],
  [("UTC flag carried with every time value", "parse/values/datetime.go NewDateTime, unixtime2RFC3339"), ("expiry uses the flag of its start time", "parse/values/expire.go ToItem")],
  observe=["time strings of the dump"])

p("C16", "Compressed data is shown intact, reported damaged, or cut off at 1 GB",
  "The packets inside a compressed packet (uncompressed, ZIP, ZLIB, BZip2) are dumped exactly as they would be on their own (a further compressed packet among them is listed, not expanded); if the compressed data is damaged in a way its format can detect, or ends early, the run ends in an error. Data that expands to 1 GB or more is not expanded further: the packet is marked as too large and the packets before and after it are still dumped.",
  ["inputs", "fault_sequences"], "every payload, algorithm, corruption offset and cut of the compressed stream; expansion beyond the limit",
  "Tests contain two intact compressed messages.",
  ["parse/tags/Tag08.go", "parse/tags/packets.go"],
  [("decompress fully before parsing, keep the decoder's error", "parse/tags/Tag08.go copyFrom"), ("size limit", "parse/tags/Tag08.go maxDecompressionDataSize")],
  observe=["items below the compressed packet, exit status"])

p("C17", "Network commands ask exactly the configured server for exactly the query",
  "hkp sends one GET for /pks/lookup with op=get and the unmodified search term to the given key server, port and scheme; fetch sends one GET for the given URL; github (for a well-formed user name) asks github.com/<user>.gpg, or with --keyid the GitHub API's key list page by page. Redirects are followed by further GETs and nothing else is contacted; without a valid argument nothing is sent at all.",
  ["inputs", "fault_sequences"], "every user name, search term, key server, port, URL and option; every redirect chain and failure",
  "Only the URL strings of a few servers are tested, not the requests that are sent.",
  ["hkp/hkp.go", "github/github.go", "facade/hkp.go", "facade/fetch.go", "facade/github.go"],
  [("URL built from the options", "hkp/hkp.go URL, Fetch; github/github.go makeURL, makeURLAPI"), ("argument checks before the request", "facade/hkp.go, facade/fetch.go, facade/github.go")],
  observe=["requests seen by the simulated network"])

p("C18", "The partial result of a failed parse is an exact prefix",
  "When a library parse fails part-way (damaged packet, cut stream or read error), the items handed back with the error, or step by step before it, are exactly the items of the packets before the failure, identical to those of a full run, and never include a damaged or later packet.",
  ["crash_points", "inputs"], "every packet sequence and every packet at which it can fail",
  "Tests look at the result only when there is no error.",
  ["parse/parse.go", "parse/tags/packets.go"],
  [("an item is added only after it was parsed without error", "parse/parse.go Parse"), ("step-wise reading", "parse/tags/packets.go Next, Parse")],
  observe=["result.Info returned together with the error", "items of the step-wise API"])

p("C22", "Packets and inputs do not colour each other's description",
  "A packet is described the same whatever other packets stand before or after it, and whatever inputs the same context object was used to parse before (completely or in vain). Only these relations exist: the expiration date shown for a signature is that signature's own creation time plus its validity period; that shown for a key is the creation time of the most recent key packet plus the period; the hint on an encrypted data packet names the kind of session key packet of the same message, i.e. since the previous encrypted data packet. Where the related packet or field is missing, nothing is derived.",
  ["histories", "inputs"], "every sequence of packets (containers and embedded signatures included) and every history of inputs parsed with one context, failed ones included",
  "Tests parse each packet type on its own with a fresh context, so what one packet leaves behind for the next is never seen.",
  ["parse/context/context.go", "parse/context/symalgmode.go", "parse/tags/tag02.go", "parse/tags/sub02.go", "parse/tags/sub03.go", "parse/tags/sub09.go", "parse/tags/pubkey.go", "parse/tags/tag01.go", "parse/tags/tag03.go", "parse/tags/tag09.go", "parse/tags/tag18.go", "parse/tags/tag20.go", "parse/values/expire.go", "parse/parser.go"],
  [("creation time of the signature being parsed", "parse/tags/tag02.go Parse, sub02.go, sub03.go"), ("creation time of the last key", "parse/tags/pubkey.go, sub09.go"), ("session key mode set and reset", "parse/tags/tag01.go, tag03.go, tag09.go, tag18.go, tag20.go")],
  state=[("SigCreationTime, KeyCreationTime, SymAlgMode", "what earlier packets left for later ones", "parse/context/context.go")],
  observe=["items of the JSON dump", "result.Info of the library API"])

p("C19", "Each field is shown with the meaning RFC 4880 gives it",
  "Names, values and notes of the dump describe the packet fields as RFC 4880 / RFC 4880bis define them.",
  ["inputs"], "every packet content", "Tests pin the rendering of sample packets only.",
  ["parse/values", "parse/tags", "parse/pubkey"], [("value tables", "parse/values/*.go")])
p("C20", "Text and JSON output carry the same items",
  "The text and the JSON rendering of the same result contain the same items in the same order, and --indent changes white space only.",
  ["inputs"], "every result tree", "Tests compare a few samples.",
  ["parse/result/result.go"], [("one result tree, two renderers", "parse/result/result.go JSON, ToString")])
p("C21", "Options only switch raw dumps on and off",
  "-c, -i, -l, -m and -p add or remove the dump lines of their packet kind and change nothing else.",
  ["configurations"], "every option set and input", "Tests try a few option sets.",
  ["parse/context/context.go", "parse/tags", "parse/values/dump.go"], [("dump flag per item", "parse/values/dump.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
