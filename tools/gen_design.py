#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the text below, and per property what its harness
declares (Rule, Bounds, Assumptions), so that the two cannot drift apart."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(V + '/tools/design_head.md').read()
TAIL = open(V + '/tools/design_tail.md').read()

# oracle, and what the exploration reaches that tests cannot
WHY = {
'I01': ("each script knows the result of every operation; the race detector", "the fault needs two values in use at once and a switch between two particular operations"),
'I02': ("the results of the same operations on an identical value used alone; the race detector", "a write hidden in a read shows under concurrency only"),
'I03': ("the results of outer and inner operation alone", "needs a callback that uses the library, at a particular call"),
'I04': ("copies of every argument's whole array and of every result, compared after each later step; the function's own result on fresh memory", "tests use a result once and never look at an argument again"),
'I05': ("the panic value or goroutine end seen by the caller, and the results of everything of the component without it; completion", "needs a callback that panics or exits, at a particular call or between particular steps of another goroutine"),
'M01': ("reachable objects and bytes after garbage collection, which may not grow with the repetitions", "tests do not measure memory"),
'C01': ("an exhaustive linearizability search of the recorded history against a plain map, the race detector, absence of deadlock", "a test sees one interleaving; the property is about all of them"),
'C02': ("a ledger of accepted and handled tasks kept by the harness, the race detector, a census of goroutines at the end", "needs a worker being recycled in the window between being chosen and being fed, while the collector and Stop run"),
'C03': ("a counter of running handlers and a counter model of tasks in progress", "exceeding the limit needs submissions that overlap in a window of a few instructions"),
'C04': ("a virtual clock, the idle time of every worker, a census of goroutines after quiescence", "idle timeouts lie in the real test's future, and a leak is invisible to it"),
'C05': ("ledger of payload bytes: delivered once or dropped once, equal to the bytes at the time of Write", "needs a full ring, wrap-around and writer/consumer races at once"),
'C06': ("order of delivery against the real-time order of writes; fullness of the ring at a drop; liveness of Next after quiescence", "as C05"),
'C07': ("count of constructor runs, completeness of the returned value, race detector", "the window is inside the first construction"),
'C08': ("exact sequential model in virtual time; concurrent histories checked for linearizability against a 'sleep in progress / woken' model", "a lost wake-up needs the wake-up between check and wait"),
'C09': ("table model sequentially; linearizability concurrently; converters that use the registry themselves must finish", "the deadlock needs a writer that arrives between two read locks"),
'C10': ("overlap flags inside the critical section, values seen by later holders, deadlock and spin detection", "mutual exclusion is a statement about all interleavings"),
'C11': ("recorded calls of every closer and the expected error list", "combinations of closers, errors and appends, and appends during a Close"),
'C12': ("recorded calls, order, the error and the way the function ended", "panics, goroutine exits and errors in combination"),
'C13': ("count of handler runs, state of the channel at every step, no panic", "a second signal while the handler runs is a matter of luck in a test"),
'C14': ("ownership ledger of every object", "the permitted answers of sync.Pool are chosen by the runtime, not by a test"),
'D01': ("a sequence", "recycled nodes, emptied and refilled queues, in every order"),
'D02': ("a sequence", "as D01"),
'D03': ("a sequence", "every position in every reachable state"),
'D04': ("a sequence", "the chunk boundary reached from both ends with recycled chunks"),
'D05': ("a bounded sequence", "every capacity and every cursor position after any number of wrap-arounds"),
'D06': ("a sequence", "growth and shrinking at every length"),
'D07': ("a straightforward reimplementation on fresh slices", "the space of index arguments, including the extreme integers"),
'D08': ("deep copies of every slice that may not change, spare capacity included", "aliasing shows only for particular lengths, capacities and overlaps"),
'D09': ("a sorted association list", "tower heights are random: every height is enumerated here"),
'D10': ("a sorted association list and a position", "iterators over maps that change, at every tower height"),
'D11': ("a sorted association list", "callbacks that change the map during Range"),
'D12': ("a set of positions held as booleans", "every state of the 8-bit set, widths of the others"),
'A01': ("insertion sort; identity of elements for stability", "stability and permutation for every pattern of ties"),
'A02': ("linear scan", "every boundary key in every slice shape"),
'X01': ("the standard library's modes applied to the IV or nonce found in the output", "every length around block boundaries"),
'X02': ("refusal, and no plaintext", "every bit, cut and splice"),
'X03': ("refusal or the plaintext of the published layout; no panic", "every length"),
'X04': ("the random source replaced by one under the check's control", "failures of the random source cannot be provoked by a test, nor unused random bits be seen"),
'X05': ("only the hashed password passes; cost read back from the hash", "neighbouring passwords of every kind"),
'X06': ("only the hashed password passes", "as X05; concurrent hashing"),
'X07': ("an error, and no panic", "every header value, including overflowing offsets"),
'X08': ("reference hashes kept in the harness, the format, and the arguments argon2 received", "a silent change of strength or format passes round-trip tests"),
'T01': ("day counting by the calendar rules", "every day of eight centuries"),
'T02': ("the definition, evaluated at every end point", "every configuration of a few intervals in every order"),
'T03': ("a virtual clock", "a clock that moves during the call"),
'F01': ("counts of branch calls, arguments and results", "nil, zero and nested values, several matches"),
'F02': ("the sequence of calls", "every sequence of kinds of option"),
'V01': ("Go's own conversion, strconv, and round trips", "every value of the small types for every pair"),
'W01': ("the walk recomputed by the harness from the tree it built; calls recorded by a stand-in go command", "directory shapes, failing commands and permissions in combination"),
}

def string(src, field):
    m = re.search(r'\b' + field + r':\s*("(?:[^"\\]|\\.)*"|dec\.\w+|\[\]string\{.*?\}),\n', src, re.S)
    if not m: return ''
    s = m.group(1)
    if s.startswith('dec.'):
        d = open(V + '/harness/dec/dec.go').read()
        m = re.search(s[4:] + r'\s*=\s*("(?:[^"\\]|\\.)*"|\[\]string\{.*?\})\n', d, re.S)
        s = m.group(1) if m else ''
    return '; '.join(json.loads(x) for x in re.findall(r'"(?:[^"\\]|\\.)*"', s))

out = [HEAD]
out.append('## 4. Per property\n\nBounds in brackets are those of the thorough tier where they differ. "Decided by" is what is enumerated; every execution runs the code of /repo.\n')
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    src = open(V + '/harness/%s/main.go' % i.lower()).read()
    o, w = WHY[i]
    out.append('### %s. %s\n\n- Decided by: %s.\n- Oracle: %s.\n- Bounds: %s.\n- Beyond tests: %s.' % (i, p['title'], string(src, 'Rule'), o, string(src, 'Bounds'), w))
    a = string(src, 'Assumptions')
    if a: out.append('- Assumes: %s.' % a)
    out.append('')
out.append(TAIL)
rows = []
res = {}
rf = V + '/tools/seeded_results.txt'
if os.path.exists(rf):
    for l in open(rf):
        f = l.split()
        if len(f) >= 3: res.setdefault(f[0], {})[f[1]] = f[2]
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    r = res.get(n, {})
    caught = ', '.join(k for k in sorted(r) if r[k] == 'rc=1') or '(not run)' if not any(v != 'rc=1' for v in r.values()) else ', '.join('%s %s' % (k, {'rc=1': '', 'rc=0': 'missed'}.get(v, v)) for k, v in sorted(r.items()))
    rows.append('| %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' '), caught))
out.append('| change | property | what it breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
