#!/usr/bin/env python3
# Writes ../MANIFEST.json.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
C = {
 "C01": ("seeded read, open, clipboard and network failures at drawn offsets; exit status, streams and returned errors checked", "Samples fault offset x error kind x source x document; trusts that an injected failure that took effect is seen by the code as a real one would be."),
 "C02": ("same bytes under several seeded delivery schedules, map orders and clocks, outcomes compared", "Metamorphic: no reference output needed; assumes only that schedules are legal for io.Reader and HTTP."),
 "C03": ("same packets through several simulated sources and seeded surroundings, dumps compared", "Metamorphic; network, clipboard and file contents are stubs, everything above them is real."),
 "C04": ("seeded documents, whole or cut at a seeded crash point, dump compared with the document model", "The document builder is the reference model; random scenarios leave out one listed x/crypto quirk (known finding)."),
 "C05": ("seeded truncation (writer crash) inside mandatory fields of every structure, error required", "Which fields are mandatory comes from the document builder, written after RFC 4880/4880bis; fields marked soft make no claim."),
 "C06": ("seeded corruption, loss, repetition and swapping of armor lines, dump compared with the undamaged one", "Damage that leaves data and CRC-24 consistent must give the same dump; one listed x/crypto quirk is left out of the random part (known finding)."),
 "C07": ("seeded write failures and short writes at drawn offsets, exit status and prefix checked against the fault-free run", "Samples fault offset x kind x command x format."),
 "C08": ("seeded response bodies, framings, deliveries and failures, output compared with the bytes sent", "Content-decoding by net/http is excluded by the simulated server never sending encoded bodies unasked."),
 "C09": ("simulated key list server with seeded pages, near-matches and page failures, outcome compared with a reference lookup", "Reference model: first match in page order, pages of 100."),
 "C10": ("seeded interrupt (context or SIGINT) at a drawn network event, bounded progress and absence of later requests checked", "Network events are counted by the simulated transport; progress bound is a constant number of events after the interrupt."),
 "C11": ("handle accounting over the whole fault space of the other checks", "Counts files and response bodies handed out by the simulated file system and transport."),
 "C12": ("seeded preemption at statement granularity of concurrent library tasks, results compared with solo runs, plus the same schedules under the race detector", "Switches happen between statements of the repository (not inside dependencies); the race detector sees only executed accesses."),
 "C13": ("seeded histories of operations in one process, each compared with a fresh process", "Compares observable outcome only."),
 "C14": ("seeded corruption of structured input, servers and arguments under a step budget; panics, crashes and hangs detected; documents grown fourfold to show work in proportion", "Step budget linear in the input size; sampling cannot exclude a rare crashing input."),
 "C15": ("seeded time zones, clock readings, zone changes and clock jumps in mid-run, dumps compared", "Zone data from Go's embedded tzdata."),
 "C16": ("seeded damage of compressed packets and oversized expansions, compared with reference decoders and with the uncompressed form", "Reference decoders are Go's compress packages; the 1 GB scenarios are few and fixed."),
 "C17": ("simulated network records every request for seeded arguments, servers and redirect chains, compared with a reference request list", "Everything that leaves through net/http is recorded; other ways out are not simulated."),
 "C22": ("seeded packet sequences and histories of parses with one context (cut and failing ones included); each packet compared with itself alone, derived dates and hints recomputed", "Dates are recomputed from the times the dump itself shows (with -u); hints after a key block subpacket and dates after a nested key make no claim."),
 "C18": ("seeded failure at a drawn packet, items handed back compared with those of an undisturbed run", "Compares serialised items."),
}
NA = {
 "C19": "Pure function of the bytes: no schedule, fault, clock or I/O takes part in what a field means, so simulation would only be example testing against a second RFC decoder.",
 "C20": "Pure function of one result value: nothing that a simulator controls influences it.",
 "C21": "Pure function of options and bytes: nothing that a simulator controls influences it.",
}
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "checks": [{"property": k, "quick_cmd": f"bash check.sh {k} quick", "thorough_cmd": f"bash check.sh {k} thorough",
   "technique": T + t, "level": "exploration",
   "level_note": "Seeded search, not exhaustive: " + n} for k, (t, n) in C.items()],
 "not_applicable": [{"property": k, "reason": r} for k, r in NA.items()],
 "notes": "/repo holds no hooks: check.sh builds the simulator from /repo's working tree with 'go build -overlay' (sim/instrument rewrites copies of its source files at build time), so the shipped code is unchanged. Replay: bash check.sh --replay FILE."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
