"""C26 a stream never keeps the program from exiting.

The program's own threads end at arbitrary points, with streams running, half started, half stopped or stuck in
their source.  The interpreter then waits for every thread that is not a daemon: such a thread has to end by itself.
"""
import hashlib
import weakref

from dst import gen
from dst.sim import EXIT_CALLS, SimAbort, HarnessError
from dst.world import World, EXC

ID = 'C26'
STUCK = 1e6


def make(rng, tier):
    group = rng.choice(['sb', 'sb', 'ss'])
    sessions = []
    for _ in range(rng.randint(1, 3)):
        n = rng.choice([0, 1, 4, 9])
        se = {'script': gen.script(rng, n, rng.choice([(0,), (0, 0.1), (0.3, 2), (0, STUCK)]),
                                   rng.choice([0, 0.3]), (0, 0.2, 3))}
        x = rng.random()
        if x < 0.3:
            se['tail'] = ['n', rng.choice([0.05, 0.4, STUCK])]
        elif x < 0.45:
            se['tail'] = ['x', rng.choice(['OSError', 'StopIteration', 'KeyboardInterrupt']), rng.choice([0, 0.3])]
        if rng.random() < 0.2:
            se['close'] = {'d': rng.choice([0.3, 5, STUCK])}
        elif rng.random() < 0.1:
            se['close'] = {'x': 'OSError'}
        if rng.random() < 0.2:
            se['open'] = {'d': rng.choice([0.2, 3])} if rng.random() < 0.7 else {'x': 'OSError'}
        if rng.random() < 0.1:
            se['info'] = {'x': 'OSError'}
        sessions.append(se)
    plan = {'group': group, 'src': gen.src(rng, sessions, style='ss' if group == 'ss' else None,
                                           idle=rng.choice([None, 0.05, 1, STUCK])),
            'buf': {'maxlen': rng.choice([1, 2, 10, None])}, 'sched': gen.sched(rng)}
    if rng.random() < 0.2:
        plan['buf']['auto_drop'] = False
    if rng.random() < 0.1:
        plan['fail_thread_starts'] = [rng.choice([1, 2, 3])]
    plan['clients'] = []
    for c in range(rng.randint(1, 3)):
        ops = []
        for _ in range(rng.randint(1, 6)):
            k = rng.choice(['begin', 'begin', 'end', 'read', 'iter', 'sleep', 'sleep', 'info', 'with'])
            ops.append([k, rng.choice([0, 0.05, 0.3, 1, 3]), rng.choice([1, 2, 5])])
        if c == 0 and rng.random() < 0.9:
            ops[0][0] = 'begin'
        cl = {'name': f'u{c}', 'ops': ops, 'end': rng.choice(['return', 'return', 'raise'])}
        if rng.random() < 0.4:
            cl['intr'] = [rng.randint(1, 8), rng.choice(['KeyboardInterrupt', 'SystemExit']), rng.choice([0, 0.05, 0.4])]
        if rng.random() < 0.3:
            cl['daemon'] = True  # does not keep the program alive either
        plan['clients'].append(cl)
    return plan


class W(World):
    def history_digest(self):
        return hashlib.blake2b(repr(self.log).encode(), digest_size=8).hexdigest()


def client(w, c):
    sim, sb, src = w.sim, w.sb, w.source
    rd = []

    def begin():
        if sb is not None:
            sb.start()
            rd.append(sb.mk_reader())
        else:
            rd.append(src.open_reader())

    def end():
        if sb is not None:
            sb.stop()
        elif rd:
            rd.pop().close()

    def use(k, n):
        for _ in range(n):
            if not rd:
                return
            if k == 'iter':
                if next(iter(rd[-1]), None) is None:
                    return
            else:
                next(rd[-1], None)

    def do(k, t, n):
        if k == 'begin':
            begin()
        elif k == 'end':
            end()
        elif k in ('read', 'iter'):
            use(k, n)
        elif k == 'info':
            return sb.is_running if sb is not None else src.open_reader
        elif k == 'with':
            with (sb if sb is not None else src.open_reader()) as x:
                rd.append(x.mk_reader() if sb is not None else x)
                if t:
                    sim.sleep(t, 'body')
                use('read', n)
        else:
            sim.sleep(t, 'client-sleep')
    try:
        for k, t, n in c['ops']:
            try:
                do(k, t, n)
            except Exception as e:
                if isinstance(e, (SimAbort, HarnessError)):
                    raise
                sim.probe('refused')
                e.__traceback__ = None
            w.log.append((c['name'], k, round(sim.now, 6)))
        if c['end'] == 'raise':
            sim.fault('client_crash')
    except (KeyboardInterrupt, SystemExit):
        w.log.append((c['name'], 'interrupted', round(sim.now, 6)))


def run(sim, plan):
    import concurrent.futures.thread as cft
    finalizers = set(weakref.finalize._registry)
    w = W(sim, plan)
    w.log = []
    if plan['group'] == 'ss':
        w.source.configure_buffer(**plan['buf'])
        w.sb = None
    else:
        w.mk_buffer()
    for c in plan['clients']:
        if c.get('intr'):
            i = c['intr']
            sim.interrupts[c['name']] = (i[0], EXC[i[1]], i[2])
        w.threads[c['name']] = sim.spawn(lambda c=c: client(w, c), c['name'], daemon=bool(c.get('daemon')))
    for c in plan['clients']:
        # a thread stuck in a call of the user's own that waits is none of the library's doing
        if not c.get('daemon'):
            w.threads[c['name']].join(30)
    # what is left to the interpreter: executors are told, threads that are not daemons are waited for,
    # then the exit handlers run
    w.handler = None

    def handlers(early):
        for e, f, a, k in reversed(EXIT_CALLS + sim.exit_calls):
            if e == early:
                run_handler(f, a, k)

    def run_handler(f, a, k):
        w.handler = f
        sim.probe('exit_handlers')
        try:
            f(*a, **k)
        except Exception as e:
            if isinstance(e, (SimAbort, HarnessError)):
                raise
            e.__traceback__ = None
        w.handler = None
    if cft._threads_queues:
        for q in list(cft._threads_queues.values()):
            q.put(None)
    sim.spawn(lambda: handlers(True), 'exit1').join(30)
    sim.sleep(30, 'exit')
    libs = [t for t in sim.tasks if t.name.startswith('lib')]
    w.n_alive = sum(1 for t in libs if t.thread is not None and t.thread.is_alive())
    w.log.append(('alive', w.n_alive, len(libs)))
    w.left = [t.name for t in libs if t.thread is not None and t.thread.is_alive() and not t.daemon]
    sim.probe('alive_at_exit', w.n_alive)
    if w.handler is None:
        def late():
            handlers(False)
            for f, i in list(weakref.finalize._registry.items()):
                if f not in finalizers and i.atexit:
                    run_handler(f, (), {})
        sim.spawn(late, 'exit2').join(30)
    return w


def check(w, plan):
    if w.handler is not None:
        return [('exit-waits', f'the exit handler {getattr(w.handler, "__qualname__", w.handler)} has not returned '
                 f'after 30 s: the process never exits')]
    if w.left:
        return [('keeps-alive', f'{", ".join(w.left)} not a daemon and still running 30 s after the program\'s own '
                 f'threads ended: the process never exits')]
    return []


def nontrivial(w, plan):
    """a library thread was running when the program's own threads had ended"""
    return w.n_alive > 0
