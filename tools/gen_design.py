#!/usr/bin/env python3
"""Rewrite the per-property part of DESIGN.md from properties.jsonl, the harness headers and the notes below."""
import json, re, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {
"P01": "Values up to some 60 nodes, strings with every byte class (control, quotes, UTF-8 of all lengths, raw high bytes), numbers from random bit patterns as well as integers near powers of two. The reference parser and printer (`jval.hpp`) share no code with the library. Edits are replayed on a `std::map` model and on siblings that must not change.",
"P02": "Texts are valid documents damaged by 1-4 token or byte edits, or random token strings; the reference parser decides validity. Depth 1 to 140 around the limit. Inputs are placed at the end of an exactly sized heap block so that any over-read is a sanitizer report.",
"P03": "Covers every encoder and decoder pair, including the template-based and the direct decoders, and batches of up to 12 elements with broken ones in between.",
"P04": "The server is driven through the function a transport calls. The reference classifier says for every byte string whether no answer, one answer, or an array is due and with which id and code; answers are read with the independent JSON reader. `bytes` always ends with a ping that must be served, `parallel` has 2-8 threads.",
"P05": "Keys and near keys (prefix, suffix, case, blank, empty, nested, repeated member) in every message shape; handler invocation counts prove that nothing ran for a caller without the key.",
"P06": "Patterns with stars anywhere, prefixes of each other, and names near them; expiry on the virtual clock, one second before, at, and after.",
"P07": "Client and server are the real ones; only the transport between them is in process. Every listing and every call result is compared with the model of what was registered.",
"P08": "LRU order is predicted exactly for distinct access times; `scarce` makes allocations fail at generated points; `concurrent` checks that each read returns a value that was stored for that URI and not yet replaced before the read began.",
"P09": "Exact admission of every single request in histories of up to 200 requests of up to 6 clients; server tests use each kind of limiter as configured.",
"P10": "The model selects the rule as documented and simulates the four algorithms in exact arithmetic.",
"P11": "The oracle for matching is exhaustive: a URI must be derivable from the template by some assignment of values satisfying the declared constraints, and one derivable with first-occurrence values must match with those values.",
"P12": "Histories long enough to overflow the cache several times; cached and plain answers must be equal call for call, with threads sharing the cache in `concurrent`.",
"P13": "Validators record their calls, so that the check sees not only the decision but who was asked with which parameters. Known finding: the server hands no role to the check (see below).",
"P14": "Socket calls are wrapped at link time: each may be cut to any length, interrupted (EINTR), refused (EAGAIN) or broken at a generated point.",
"P15": "1-12 simultaneous clients on a private loopback address. Oracle per connection, so nothing depends on how clients interleave. Known finding beyond 32 clients (see below).",
"P16": "The transport runs in a child process with its own standard input and output.",
"P17": "Frames are made by an independent WebSocket client, so fragmentation, masking, control frames and TCP segmentation are all generated.",
"P18": "After every step the counts must reach the model's; a half-sent message of a lost client must not reach the next client in the slot.",
"P19": "Bodies of 0 to 200 KB in generated pieces; up to 6 connections. For GET tool calls the expected JSON is built independently from the generated parameters.",
"P20": "Up to 8 streams; the number of retained events is exceeded in part of the cases.",
"P21": "Capacity 1-20, thousands of stores, every replay is compared byte for byte after decoding.",
"P22": "The list matcher directly, and the complete header rules over connections.",
"P23": "Sessions near their expiry second on the virtual clock, table at its limit in `full`.",
"P24": "Responses reordered, duplicated, with strays; each call must get the answer carrying its own token.",
"P25": "Real time, because the waits of the client are real; one-sided bounds only.",
"P26": "The scripted server cuts its response at any byte; `requests` also damages responses, where the only claims are: no crash, no hang, an error or the right text.",
"P27": "Backends are scripted sockets; 1-4 of them. Everything that no backend is configured for must be answered as a server without gateway does.",
"P28": "A rejected configuration must leave the previous one in force; look-ups after each (re)load are compared with the reference router.",
"P29": "The process's own descriptors are counted, so a leaked or twice-lent connection is seen whatever the pool reports. Maintenance rounds run when the test lets them.",
"P30": "Each task increments its own counter: 1 exactly if accepted, 0 if refused, also with resizes and shutdown in between.",
"P31": "Keys with forced collisions, growth and removal; releases of keys and values are counted.",
"P32": "Conservation of elements under threads, exact order sequentially.",
"P33": "Block intervals must not overlap and contents must stay; sizes around every size class border.",
"P34": "Release of foreign, repeated and null objects included; afterwards the pool must still be consistent.",
"P35": "A lock-state model is stepped by a coordinator over several threads, so each attempt has a known expected outcome; the concurrent tests check mutual exclusion and wake-ups.",
"P36": "Topics are generated close to the real ones (prefixes, one character more or less, other clients). Locks are schedule points in `crowd`. Limit: the code never starts a service loop for MQTT, so the check drives the functions its event callback calls.",
"P37": "Client ids that are prefixes of one another, contain separators or are very long.",
"P38": "A crash point is any file operation of a save, performed in part. Damage is truncation at every place and 1-4 byte edits.",
"P39": "Handlers of several lengths, messages before, during and after the stop request.",
"P40": "Like P19/P20 for the streamable transport, with resuming streams.",
"P41": "The peer is the test itself, on real sockets with an address of its own; outages are a closed listener, losses a closed or reset connection, also in mid-message.",
"P42": "Most of the path handling is libwebsockets'; the property is about what the transport configures and answers.",
"P43": "The server is scripted. Pauses of the event thread between two attempts are shortened; no TLS; an event stream sent in chunks is not claimed.",
"P44": "A peer that stops reading in mid-request is not claimed: sending has no time limit. Messages nobody asked for are not part of the claim either.",
"P45": "Standard error is caught in a file. One thread opens and closes log files; concurrent closing is not claimed.",
"P46": "The plugin libraries are compiled when the check starts and told by shared memory how to behave.",
"P47": "Recorded events are also fed in directly, with latencies and sizes no message would have.",
"P48": "Schemas that differ in two characters and have the same hash are among those generated.",
"P49": "Addresses are numbers that are never used as memory, so reuse of an address after its release is frequent. The text naming the place of an allocation is overwritten and freed after the call.",
"P50": "The resolver and the connecting are stand-ins at link time. Overlap without threads: while one connection is being made, the stand-in starts others and lets time pass, which reaches every order of lookup, expiry and release deterministically. Each address carries the number of the answer it came from.",
}
props = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
out = []
for p in props:
    i = p["id"]
    src = open(f"{R}/harness/{i}.cpp").read() if os.path.exists(f"{R}/harness/{i}.cpp") else None
    out.append(f"### {i} {p['title']}\n")
    if not src:
        out.append("No check yet.\n")
        continue
    g = lambda k: (re.search(rf"^// {k}: (.*)$", src, re.M) or [None, ""])[1]
    counts = re.findall(r'\{"(\w+)",\s*(?:t_)?[\w\[\]&() {},;<>]*?,\s*(\d+),\s*(\d+)', src)
    rule = re.search(r'o\.rule = "(.*)";', src)
    dot = lambda t: t if t.endswith(".") else t + "."
    out.append(f"* Decided by: {dot(g('TECHNIQUE'))}\n* Generator, oracle, bounds: {N.get(i, '')}\n* Assumptions and limits: {dot(g('NOTE'))}")
    if counts: out.append("* Cases (quick / thorough): " + ", ".join(f"{n} {int(a):,} / {int(b):,}" for n, a, b in counts) + f". Non-trivial when: {rule[1] if rule else ''}.")
    out.append(f"* Quantifier: {p['quantifier']['text']}. Why the tests cannot settle it: {p['why_tests_cant']}.\n")
d = open(f"{R}/DESIGN.md").read()
a, b = "<!-- properties: written by tools/gen_design.py -->\n", "<!-- end of properties -->\n"
head, rest = d.split(a) if a in d else (d, b)
open(f"{R}/DESIGN.md", "w").write(head + a + "\n" + "\n".join(out) + "\n" + b + rest.split(b, 1)[1])
