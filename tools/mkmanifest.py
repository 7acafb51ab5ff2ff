"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': 'Every recorded history of concurrent reader calls is searched for a linearization against a sequential window-and-cursor model; exact per sampled schedule.',
 'C02': 'Per consumer sequences checked against the source log (own items, order, no repeats, gaps only by eviction or drop), plus the linearizability oracle.',
 'C03': 'Source-side invariants (window size at every read), loss accounting, liveness after a drop, refused drops.',
 'C04': 'End answers checked against the interval in which the session became stopped and the linearizability model; every ended consumer must have drained.',
 'C05': 'Scripted source checks its own protocol (open/read/close order, overlap, thread) as an invariant at every call; counts checked after the run.',
 'C06': 'Virtual-time bounds on stop() and close, no read after stop returned, join.',
 'C07': 'Sessions compared item by item across up to several restarts with readers of all sessions alive.',
 'C08': 'Open, info and thread-creation failures (and pairs of them) injected; state after each failed start and the later good start checked.',
 'C09': 'Read, key and ordering failures at every position; every attached consumer must obtain what was retained and the end in time.',
 'C10': 'Lock driven by readers/writers with holds in virtual time; safety as invariants, waiting checked to be justified at every instant.',
 'C11': 'Deadlock and no-progress detected exactly by the scheduler; key and comparison failures injected inside calls; stream probed afterwards.',
 'C12': 'Exact virtual-time service bound and wake-up count per waiting call.',
 'C13': 'Exact virtual-time gaps between source reads; a virtual-time polling probe checks that items are stored when read.',
 'C14': 'StreamSource opened and closed from several threads with failures; open exactly while readers are open.',
 'C15': 'mk_stream_buffer with every argument form, failures of open, read, info, body and close.',
 'C16': 'Real urllib/http.client stack over a simulated socket: the request sent, splits, delays, resets, truncation, chunked encoding, wall clock jumps.',
 'C17': 'Locked deque against a plain sorted list model, operation by operation, failing keys and comparisons, plus schedule-level atomicity of writer sections.',
 'C18': 'Cursor compared after every call with a model; peek, strict_n, defaults, failing keys; failures must leave it.',
 'C19': 'Direct iteration and context use of SourceReader, QuickSourceReader and StreamSource, virtual-time pace.',
 'C20': 'Twin simulation: the same stream with and without misbehaving consumers in the same virtual time must behave identically towards the others.',
 'C21': 'Readers made and attached while starts are in progress on other threads; info identity and session checked.',
 'C22': 'All scoping forms, bodies left by exceptions and by interrupts delivered during waits.',
 'C24': 'Twin simulation: a stream alone (built from a separate copy of the package) against the same stream among others that fail, hang and restart, compared call by call in virtual time.',
 'C25': 'Items counted through weak references at quiescent instants of runs much longer than the window, across restarts, crashes and abandoned readers.',
 'C26': 'The program ends at sampled points, by interrupts too; every library thread left running must be one the interpreter does not wait for; exit handlers (atexit, finalizers, threading) run in the simulation and must return.',
 'C23': 'Interrupts delivered at blocking points of acquire and release; afterwards the lock must be as if never asked.',
}
b = json.load(open(os.path.join(HERE, 'dst', 'budgets.json')))
checks = []
for pid in sorted(NOTE):
    checks.append({
        'property': pid,
        'quick_cmd': f'python3 check.py {pid} --tier quick',
        'thorough_cmd': f'python3 check.py {pid} --tier thorough',
        'evidence_file': f'evidence/{pid}.json',
        'technique': 'deterministic simulation with fault injection: seeded search over thread schedules, virtual time and faults',
        'level': 'exploration',
        'level_note': NOTE[pid] + ' Samples schedules and fault sequences; a clean batch is evidence, not proof. '
        'Trusts the simulator: threads switch at synchronisation operations, sleeps and source-line boundaries only.',
    })
json.dump({
    'version': 1,
    'setup_cmd': 'python3 tools/selftest.py --setup',
    'checks': checks,
    'not_applicable': [
        {'property': 'C90', 'reason': 'SortedCollection searches are pure functions of a list and a key: no schedule, clock, fault or interleaving is involved, so simulation decides nothing about them (the concurrent, faulty use of the same structure is C17).'},
        {'property': 'C91', 'reason': 'stream2py/pack.py is a sequential packaging script (string formatting, setup.cfg, twine): nothing in the property depends on scheduling, time or injected faults.'},
    ],
    'notes': 'No hooks in /repo: the simulator replaces the thread primitives and clocks below the threading, queue, time and socket modules before stream2py is imported. Fixes of genuine defects are separate fix: commits in /repo, listed in known_findings.json.',
}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
