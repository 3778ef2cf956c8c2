#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/design_tail.md, the checks' own rule texts, the oracles below,
measured costs (tools/costs.json) and the outcome of the planted bugs (tools/catches.json)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
'C01': "the list of requests the harness sent; the handler callback records what it was given and every field is compared, the answer count and order too",
'C02': "an HTTP/1.1 response parser in the harness that knows the request methods; status, headers (as multiset of values per name), body and framing are compared with what the handler returned, left-over bytes are a violation; where the handler's text has line breaks, the rest of the response must be as if it had none",
'C03': "zlib and brotli called directly to decode; an independent Accept-Encoding reader (weights, q=0, case) says which codings are listed",
'C04': "a client model: after keep-alive the next request must be answered, after close the server must shut the socket and answer nothing more; which of the two is allowed follows from the request, the handler's header and the option",
'C05': "an independent strict/lenient request judge with three verdicts (certainly well-formed, certainly malformed, either); malformed input must never reach the handler, must end in a closed connection, answers must be whole error responses (413 for limits); a canary connection has to be served afterwards; sanitizers and descriptor tracking for harm",
'C06': "status, framing, error format and intact message computed by the harness for each failure kind",
'C07': "fault-free run of the same exchange gives the reference stream (dates and ids masked); received bytes must be a prefix, complete when no fatal fault was injected; socket-life-cycle monitor in simnet; canary client",
'C08': "end conditions (joined threads, refused clients after shutdown, bounded virtual time, no exception), race monitor, deadlock detection",
'C09': "counter of handlers active at once, closing of refused sockets, service after capacity returned",
'C10': "RFC 6455 frame writer in the harness; messages delivered must equal those sent (type, partial flag, payload), pongs must carry the ping's payload",
'C11': "strict RFC 6455 frame reader on the bytes sent (minimal lengths, no mask, no rsv, fragmentation rules, a single close frame at the end)",
'C12': "expected end of session in bounded virtual time, at most one close frame, no delivery from the offending frame; live peers must never be cut",
'C13': "race monitor, deadlock detection, exact-delivery and whole-frame oracles of C10/C11 per schedule",
'C14': "a parser of the HTML-standard event-stream format; events received must equal events pushed",
'C15': "a strict RFC 8259 reader and value comparison; memory returned",
'C16': "strict RFC 8259 recogniser and reference value",
'C17': "std::map model; every key read back after each step and after two re-openings",
'C18': "the set of states a crash may leave: the model before or after the operation in flight (prefix semantics); acknowledged operations must be there; failures must be reported and leave the previous state",
'C19': "linearizability of the recorded call/return history (search over all orders) plus race monitor",
'C20': "std::map model with virtual clock",
'C21': "independent strict tar/gzip writer and reader",
'C22': "independent scan of the damaged bytes for headers with valid checksum and complete content",
'C23': "race monitor, deadlock detection, linearizability, independent archive reader",
'C24': "the harness knows the tree it made: independent path resolution; opened files are observed through the file system layer",
'C25': "own codec implementations",
'C26': "own FIPS 180-4 implementation; constants for the huge messages (their digest was computed with coreutils sha1sum)",
'C27': "reference zlib/brotli calls",
'C28': "reference inflate on the whole stream; leak check",
'C29': "std::multimap style models and an independent URL splitter",
'C30': "model of values and pending lines, RFC 6265 style reading of the lines",
'C31': "independent single-pass renderer", 'C32': "independent definitions", 'C33': "whole lines in the captured stream, per-thread order, race monitor",
'C34': "format, equality after copy/assign, race monitor, distinct sequences",
'C35': "simnet descriptor monitor (double close, use after close, leaks), order and wholeness of written messages, virtual duration of calls, race monitor",
'C36': "own RFC 7617 reader", 'C40': "the harness gives every simulated client its address and knows which request it sent when; identifiers are compared between context, response and log, and the log is split into lines and matched one to one",
'C41': "exact virtual time: closing before the configured timeout, staying open long after it, or an incomplete answer to a client that makes progress is a violation; a second client must be served meanwhile",
'C43': "a state model of two server slots and two ports plus the simulated system's bind() rules: after every step the model's running servers are compared with live threads, open descriptors, listening ports, `getConfig()` and what a client is answered",
'C44': "differential: each client's byte stream (identifiers and dates masked) is compared with the stream the same script gets alone on a fresh server; scripts and configurations are chosen so that every mix-up of limits, error formats, codings, bodies, credentials, peers or sessions shows in the bytes",
'C45': "differential: each operation gives under the locale exactly what it gives in the C locale, before and afterwards; the locales are compiled by the check with `localedef` from the system's sources",
'C46': "differential: each script gives with the clock set exactly the record (bytes, times by the monotonic clock, calls, log) it gives undisturbed; dates and times of files equal the simulated system clock; what waits for a time of day is shifted as the kernel does it",
'C42': "allocated bytes reported by the sanitizer allocator before and after three repetitions of each execution in one process, open descriptors of the simulated network and of the process; the blocks left are printed with their call stacks",
'C37': "own civil-calendar computation under several time zones, tables of the standards",
}
def lit(src, var):
    m = re.search(r'\b(?:cfg|c)\.%s = ((?:"(?:[^"\\]|\\.)*"\s*)+);' % var, src)
    return ''.join(json.loads(x) for x in re.findall(r'"(?:[^"\\]|\\.)*"', m.group(1))) if m else ''
def lst(src):
    m = re.search(r'\b(?:cfg|c)\.assumptions = \{(.*?)\};', src, re.S)
    return [json.loads(x) for x in re.findall(r'"(?:[^"\\]|\\.)*"', m.group(1))] if m else []
def load(n, d):
    p = os.path.join(V, 'tools', n)
    return json.load(open(p)) if os.path.exists(p) else d
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
costs, catches = load('costs.json', {}), load('catches.json', {})
seeds = {}
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
o = [open(os.path.join(V, 'tools', 'design_head.md')).read(), '## 3. Properties\n']
for p in props:
    i = p['id']; f = os.path.join(V, 'checks', i.lower() + '.cpp')
    if not os.path.exists(f): continue
    s = open(f).read()
    o.append('### %s %s\n' % (i, p['title']))
    o.append('* Enumerated: %s.' % lit(s, 'rule').rstrip('.'))
    o.append('* Oracle: %s.' % ORACLE.get(i, ''))
    a = lst(s)
    if a: o.append('* Assumes: %s.' % '; '.join(a))
    c = costs.get(i)
    if c: o.append('* Cost: ' + '; '.join('%s %s' % (k, c[k]) for k in ('quick', 'thorough') if k in c) + '.')
    for n, m in seeds.get(i, []):
        o.append('* Planted `%s` (%s): %s.' % (n, m['what_it_breaks'].rstrip('.'), catches.get(n, 'not run')))
    o.append('')
o.append(open(os.path.join(V, 'tools', 'design_tail.md')).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o))
n = sum(len(v) for v in seeds.values())
print(n, 'planted bugs;', sum(1 for v in catches.values() if v.startswith('caught')), 'caught;', [k for v in seeds.values() for k, _ in v if not catches.get(k, '').startswith('caught')])
