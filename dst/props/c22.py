"""C22 every way of scoping a stream releases it exactly once."""
from dst import gen, lin, stream
from dst.world import EXC, HarnessError, SimAbort

ID = 'C22'

SB_FORMS = ('with', 'enterexit', 'dunder', 'fwd_call', 'fwd_next', 'fwd_mk', 'custom')
INTR = ('KeyboardInterrupt', 'SystemExit', 'InjectedBase')
BODYX = ('InjectedError', 'ValueError', 'StopIteration', 'RuntimeError', 'IndexError', 'OSError',
         'KeyboardInterrupt', 'SystemExit', 'InjectedBase', 'GeneratorExit', 'FalsyError', 'FalsyError')


def body(rng, rd, group, ends):
    ops = []
    for _ in range(rng.randint(0, 5)):
        ops.append(rng.choice([
            ['next', rd], ['nextd', rd], ['read', rd, {'ignore_no_item_found': True}],
            *([['read', rd, {'blocking': True}], ['iter', rd, rng.choice([1, 2, 30])]] * 2 if ends else []),
            ['loop', rd, 'next', {'poll': 0.1, 'limit': 2, 'tries': 2}],
            ['head', rd, {}], ['tail', rd, {'ignore_no_item_found': True}],
            ['range', rd, {'start': -1, 'stop': 1000, 'ignore_no_item_found': True}],
            ['sleep', rng.choice([0.01, 0.1, 0.5])],
        ]))
    if group == 'sb' and rng.random() < 0.15:
        ops.insert(rng.randint(0, len(ops)), ['stop'])
    if rng.random() < 0.5:
        ops.append(['raise', rng.choice(BODYX)])
    return ops


def make(rng, tier):
    group = rng.choice(['sb', 'sb', 'sb', 'ss', 'ss', 'src', 'inst'])
    style = {'sb': None, 'ss': 'ss', 'src': 'sr', 'inst': 'plain'}[group]
    nscope = rng.randint(1, 3)
    faults = rng.random() < 0.4
    ends = group in ('sb', 'ss') and rng.random() < 0.5
    sessions = []
    for i in range(nscope * 3 if group == 'ss' else nscope):
        se = {'script': gen.script(rng, rng.choice([2, 4, 9]), rng.choice([(0,), (0, 0.05), (0.1, 0.4)]),
                                   rng.choice([0, 0.3]), (0, 0.1))}
        if rng.random() < 0.3:
            se['open'] = {'d': rng.choice([0.05, 0.4])}
        if rng.random() < 0.3:
            se['info'] = {'d': rng.choice([0.05, 0.2])}
        if rng.random() < 0.3:
            se['close'] = {'d': rng.choice([0.05, 0.3])}
        if group in ('sb', 'ss') and rng.random() < 0.2:
            se['close'] = dict(se.get('close') or {}, x=rng.choice(['InjectedError', 'OSError']))
        if rng.random() < 0.3:
            se['tail'] = ['n', rng.choice([0.3, 1.2])]
        if faults and rng.random() < 0.5:
            x = rng.choice(['InjectedError', 'OSError', 'KeyboardInterrupt', 'FalsyError'])
            k = rng.choice(['open', 'info', 'read', 'key'])
            if group == 'src' and k != 'open':
                k = 'read'
            if k == 'open':
                se['open'] = {'x': x, 'd': rng.choice([0, 0.1])}
            elif k == 'info':
                se['info'] = {'x': x}
            elif k == 'read':
                se['script'].append(['x', x, 0])
            else:
                se['keyfail'] = 2
        if ends:  # so that a body may wait for the end
            se.pop('tail', None)
            se['script'].append(['n', rng.choice([0, 0.5])])
            se['script'].append(['x', rng.choice(['InjectedError', 'EOFError']), rng.choice([0, 0.1, 1.5])])
        sessions.append(se)
    sessions.append({'script': gen.script(rng, 3, (0, 0.1)) + [['x', 'EOFError', 0.3]]})
    if group == 'ss' and rng.random() < 0.3:
        # the first session breaks early and opening again takes its time
        sessions[0]['script'] = sessions[0]['script'][:2] + [['x', 'OSError', 0]]
        for se in sessions[1:]:
            se['open'] = {'d': rng.choice([0.3, 1.0])}
    plan = {'src': gen.src(rng, sessions, style=style), 'sched': gen.sched(rng), 'group': group,
            'buf': {'maxlen': gen.maxlen(rng)}}

    def scope(rd):
        s = {'rd': rd, 'ops': body(rng, rd, group, ends)}
        if group == 'sb':
            s['form'] = rng.choice(SB_FORMS)
            s['inner'] = rng.choice([None, 'with', 'enterexit', 'onclose'])
        elif group == 'ss':
            s['form'] = rng.choice(['with', 'enterexit', 'openclose', 'dunder'])
        else:
            s['form'] = rng.choice(['with', 'enterexit', 'fwd', 'custom', 'null'])
            s['ops'] = [o for o in s['ops'] if o[0] in ('sleep', 'raise')]
            for _ in range(rng.randint(0, 3)):
                s['ops'].insert(0, ['call'])
        if rng.random() < 0.4:
            where = rng.choice(['body', 'body', 'body', 'enter', 'exit'])
            s['intr'] = [where, rng.choice([1, 1, 2, 3, 5]), rng.choice(INTR),
                         rng.choice([0, 0.02, 0.1, 0.3] if where != 'exit' else [0.01, 0.02, 0.1])]
            if where == 'exit':
                plan['sched'].pop('p_stall', None)
                plan['sched']['eps'] = 0.0
        return s

    if group == 'ss':
        plan['procs'] = [{'name': f'c{c}', 'ops': [scope(f'r{c}.{k}') for k in range(rng.randint(1, 2))]}
                         for c in range(rng.randint(1, 3))]
    else:
        plan['procs'] = [{'name': 'main_client', 'ops': [scope(f'r{k}') for k in range(nscope)]}]
    if group == 'sb' and rng.random() < 0.4:
        plan['consumers'] = rng.randint(1, 2)
    return plan


class Scope:
    """What happened to one scope."""

    def __init__(self, name, form):
        self.name, self.form = name, form
        self.enter_call = self.enter_ret = self.body_end = self.exit_ret = None
        self.body_exc = None
        self.body_runs = 0
        self.got = None
        self.enter_val = None
        self.enters, self.exits = [], []
        self.inner_closes = []
        self.rec = None
        self.intr = None
        self.sess = None
        self.state_in = None
        self.wrong = None


class Ctl:
    """Runs the scopes of one client."""

    def __init__(self, w, sim, group):
        self.w, self.sim, self.group = w, sim, group

    def arm(self, sc, s, where):
        name = self.sim.current.name
        self.sim.interrupts.pop(name, None)
        i = s.get('intr')
        if i and i[0] == where:
            # leaving is interrupted only in a wait that lasts: nobody can promise to be
            # interruptible between any two instructions of an exit
            self.sim.interrupts[name] = ('long' if where == 'exit' else self.sim.current.blocks + i[1],
                                         EXC[i[2]], i[3])

    def op(self, sc, s, op, target):
        w = self.w
        if op[0] == 'raise':
            self.sim.fault('exception_in_body')
            raise EXC[op[1]]('body')
        if op[0] == 'call':
            if target is not None:
                target()
            return
        n = len(w.recs)
        w.do(op)
        for r in w.recs[n:]:
            if r.task == self.sim.current.name and r.out and r.out[0] == 'exc' \
                    and r.out[1] in INTR and r.extra is not None:
                raise r.extra

    def body(self, sc, s, target=None):
        sc.body_runs += 1
        if sc.rec is not None and sc.rec.ret is None:
            self.w.end(sc.rec, ('ok', None))
        sc.enter_ret = self.sim.stamp()
        sc.state_in = self.w.core.state
        sc.sess = self.w.core.sess
        self.arm(sc, s, 'body')
        try:
            for op in s['ops']:
                self.op(sc, s, op, target)
        except (SimAbort, HarnessError):
            raise
        except BaseException as e:
            sc.body_exc = e
            raise
        finally:
            self.arm(sc, s, 'exit')
            sc.body_end = self.sim.stamp()
            if self.group in ('sb', 'ss'):
                sc.rec = self.w.begin('stop' if self.group == 'sb' else 'rclose', (), s['rd'])

    def run(self, s):
        w, sim = self.w, self.sim
        sc = Scope(s['rd'], s['form'])
        sc.enter_call = sim.stamp()
        w.scopes.append(sc)
        if self.group == 'sb':
            sc.rec = w.begin('start', ())
        self.arm(sc, s, 'enter')
        try:
            getattr(self, 'g_' + self.group)(sc, s)
        except (SimAbort, HarnessError):
            raise
        except BaseException as e:
            e.__traceback__ = None
            sc.got = e
        finally:
            sim.interrupts.pop(sim.current.name, None)
        sc.exit_ret = sim.stamp()
        if sc.rec is not None:
            w.end(sc.rec, ('ok', None) if sc.got is None else ('exc', type(sc.got).__name__, ''))
        sc.intr = s.get('intr')
        return sc

    # explicit enter and exit, as a with statement would do it
    @staticmethod
    def manual(enter, exit_, run, argless=False):
        x = enter()
        try:
            run(x)
        except (SimAbort, HarnessError):
            raise
        except BaseException as e:
            if argless:
                exit_()
            else:
                exit_(type(e), e, e.__traceback__)
            raise
        if argless:
            exit_()
        else:
            exit_(None, None, None)

    def reader_body(self, sc, s, rd, sb=None):
        """The body of a scope on a StreamBuffer, with a reader's own scope inside."""
        w = self.w
        w.add_reader(s['rd'], rd)
        rd.set_sleep_time_on_iter_none(0.1)
        w.readers[s['rd']] = rd
        w.defaults[s['rd']] = {}
        inner = s.get('inner')
        if inner is None:
            return self.body(sc, s)
        if inner == 'onclose':
            rd.onclose = lambda: sc.inner_closes.append(self.sim.stamp())
        if inner == 'enterexit':
            return self.manual(rd.enter, rd.exit, lambda x: self.inner(sc, s, rd, x), True)
        with rd as x:
            self.inner(sc, s, rd, x)

    def inner(self, sc, s, rd, x):
        if x is not rd:
            sc.wrong = f'entering a reader gave {type(x).__name__}'
        self.body(sc, s)

    def g_sb(self, sc, s):
        from stream2py.util import contextualize_with_instance, ContextualizeCall
        w, sb, form = self.w, self.w.sb, s['form']

        def run(x):
            sc.enter_val = x
            if x is not sb:
                sc.wrong = f'entering the stream gave {type(x).__name__}'
            self.reader_body(sc, s, sb.mk_reader(), sb)

        if form == 'with':
            with sb as x:
                run(x)
        elif form == 'enterexit':
            self.manual(sb.enter, sb.exit, run)
        elif form == 'dunder':
            self.manual(sb.__enter__, sb.__exit__, run)
        elif form in ('fwd_call', 'fwd_next', 'fwd_mk'):
            m = {'fwd_call': sb.__call__, 'fwd_next': sb.__next__, 'fwd_mk': sb.mk_reader}[form]
            f = contextualize_with_instance(m)
            if form == 'fwd_mk':
                def run(x):
                    sc.enter_val = x
                    if x is not sb:
                        sc.wrong = f'entering the stream gave {type(x).__name__}'
                    self.reader_body(sc, s, f(), sb)
            with f as x:
                run(x)
        elif form == 'custom':
            fn = lambda: None
            f = ContextualizeCall(fn, *self.custom(sc, sb, fn))
            with f as x:
                run(x)

    def custom(self, sc, obj, fn):
        def enter(g):
            if g is not fn:
                sc.wrong = f'the enter function got {g!r}'
            sc.enters.append(self.sim.stamp())
            return obj.__enter__()

        def exit_(g, *info):
            if g is not fn:
                sc.wrong = f'the exit function got {g!r}'
            sc.exits.append((self.sim.stamp(), info))
            obj.__exit__(*info)
        return enter, exit_

    def g_ss(self, sc, s):
        w = self.w
        form = s['form']

        def run(rd, src=None):
            w.add_reader(s['rd'], rd)
            rd.set_sleep_time_on_iter_none(0.1)
            w.defaults[s['rd']] = {}
            self.body(sc, s)

        rd = w.source.open_reader()
        if form == 'with':
            with rd as x:
                if x is not rd:
                    sc.wrong = f'entering a reader gave {type(x).__name__}'
                run(rd)
        elif form == 'enterexit':
            self.manual(lambda: rd.enter() and rd, rd.exit, run, True)
        elif form == 'openclose':
            self.manual(lambda: rd.open() and rd, rd.close, run, True)
        else:
            self.manual(rd.__enter__, rd.__exit__, run)

    def g_src(self, sc, s):
        from stream2py.util import contextualize_with_instance, ContextualizeCall
        src, form = self.w.source, s['form']

        def run(x, f=src.read, own=src):
            sc.enter_val = x
            if x is not own:
                sc.wrong = f'entering the source gave {type(x).__name__}'
            if src.closed:
                sc.wrong = 'the source says it is closed inside its scope'
            self.body(sc, s, f)

        if form == 'with':
            with src as x:
                run(x)
        elif form == 'enterexit':
            self.manual(src.enter, src.exit, run)
        elif form == 'fwd':
            f = contextualize_with_instance(src.read)
            with f as x:
                run(x, f)
        elif form == 'custom':
            fn = src.read
            f = ContextualizeCall(fn, *self.custom(sc, src, fn))
            with f as x:
                run(x, f)
        else:  # the null functions neither open nor close
            f = ContextualizeCall(src.read)
            with src:
                with f as x:
                    run(x, f, own=f.func)
                if src.closed or self.w.core.state != 'open':
                    sc.wrong = 'leaving a scope with no exit function closed the source'
        if not src.closed:
            sc.wrong = 'the source says it is open after its scope'

    def g_inst(self, sc, s):
        """A bound method of a user's own context manager."""
        from stream2py.util import contextualize_with_instance, ContextualizeCall
        ctl, core = self, self.w.core

        class Owner:
            def __enter__(self):
                sc.enters.append(ctl.sim.stamp())
                core.open()
                return self

            def __exit__(self, *info):
                sc.exits.append((ctl.sim.stamp(), info))
                core.close()

            def use(self, a=1, *, b=2):
                ctl.sim.point('use')
                return (self, a, b)

        o = Owner()
        m = o.use
        form = s['form']
        if form == 'custom':
            f = ContextualizeCall(m, lambda g: g.__self__.__enter__(), lambda g, *i: g.__self__.__exit__(*i))
        elif form == 'null':
            f = ContextualizeCall(m)
        else:
            f = contextualize_with_instance(m)

        def call():
            if f(5, b=7) != (o, 5, 7) or f() != (o, 1, 2):
                sc.wrong = 'the wrapped method was not called as asked'

        def run(x):
            sc.enter_val = x
            if form != 'null' and x is not o:
                sc.wrong = f'entering gave {x!r}'
            self.body(sc, s, call)

        if form == 'null':
            with o:
                with f as x:
                    run(x)
        elif form == 'enterexit':
            self.manual(f.__enter__, f.__exit__, run)
        else:
            with f as x:
                run(x)


def run(sim, plan):
    w = stream.World(sim, plan, strict=True)
    w.scopes = []
    w.defaults = {}
    g = plan['group']
    if g == 'ss':
        w.source.configure_buffer(**plan['buf'])
    elif g == 'sb':
        w.mk_buffer()

    def client(p):
        c = Ctl(w, sim, g)
        for s in p['ops']:
            c.run(s)
            sim.sleep(0.05, 'between')
        return c

    th = [sim.spawn(lambda p=p: client(p), p['name']) for p in plan['procs']]

    def consumer(k):
        # reads whatever session it finds, until its end
        for i in range(3):
            sim.sleep(0.1 + 0.3 * k, 'consumer')
            n = f'k{k}.{i}'
            w.do(['mk', n, {}, 0.1])
            w.defaults[n] = {}
            w.do(['iter', n])
    cons = [sim.spawn(lambda k=k: consumer(k), f'k{k}') for k in range(plan.get('consumers', 0))]
    for t in th:
        t.join()
    for t in cons:
        t.join()
    sim.settle(6)
    return w


def check(w, plan):
    g = plan['group']
    opened = {e.sess: e for e in w.events if e.kind == 'open_ret'}
    closes, closed = {}, {}
    for e in w.events:
        if e.kind == 'close_call':
            closes.setdefault(e.sess, []).append(e)
        elif e.kind == 'close_ret':
            closed[e.sess] = e
    fails = [e for e in w.events if e.kind in ('open_fail', 'info_fail', 'keyget_fail')]
    broke = {e.sess: e.seq for e in w.events if e.kind in ('read_fail', 'key_fail')}
    stops = [r for r in w.recs if r.kind == 'stop' and r.reader is None]
    for sc in w.scopes:
        name = f'scope {sc.name} ({g}/{sc.form})'
        if sc.wrong:
            return [('wrong-scope', f'{name}: {sc.wrong}')]
        if sc.body_runs > 1:
            return [('body-twice', f'{name}: the body ran {sc.body_runs} times')]
        intr_at = sc.intr and sc.intr[0]
        if sc.body_runs == 0:
            # the scope could not be entered
            f = [e for e in fails if sc.enter_call < e.seq < sc.exit_ret]
            if sc.got is None:
                return [('body-skipped', f'{name}: the body did not run and nothing was raised')]
            if any(sc.got is w.exc_of[e.seq] for e in f):
                continue
            if intr_at in ('enter',) and type(sc.got) is EXC[sc.intr[2]]:
                continue
            return [('enter-failed', f'{name}: entering raised {sc.got!r}')]
        # entered: the source was open before the body
        if g in ('sb', 'ss'):
            o = [e for e in opened.values() if e.seq < sc.enter_ret]
            if not o:
                return [('body-before-open', f'{name}: the body began before the source was open')]
        elif sc.state_in != 'open':
            return [('body-before-open', f'{name}: the body began with the source {sc.state_in}')]
        # ... and stayed so until the body was left
        s = sc.sess if g != 'ss' else w.rmeta.get(sc.name)
        for e in closes.get(s, []):
            if e.seq < sc.body_end and not (s in broke and broke[s] < e.seq) \
                    and not any(r.inv < e.seq and r.inv > sc.enter_ret for r in stops):
                return [('closed-early', f'{name}: the source was closed (t={e.t:g}) inside the body')]
        # the exception
        want = sc.body_exc
        got = sc.got
        if want is not None and got is not want:
            if not (intr_at == 'exit' and got is not None and type(got) is EXC[sc.intr[2]]):
                return [('exception-lost', f'{name}: the body raised {want!r} but the caller got {got!r}')]
        if want is None and got is not None:
            if not (intr_at == 'exit' and type(got) is EXC[sc.intr[2]]):
                return [('exit-raised', f'{name}: leaving the scope raised {got!r}')]
        # enter and exit, each once, in order, told about the exception
        if sc.enters or sc.exits or g == 'inst' or sc.form == 'custom':
            if len(sc.enters) != 1 or len(sc.exits) != 1:
                return [('enter-exit', f'{name}: entered {len(sc.enters)} times, left {len(sc.exits)} times')]
            at, info = sc.exits[0]
            if not sc.enters[0] < sc.enter_ret or not sc.body_end < at:
                return [('enter-exit', f'{name}: enter, body and exit out of order')]
            if len(info) != 3:
                return [('exit-info', f'{name}: exit was given {len(info)} values')]
            if want is None and info != (None, None, None):
                return [('exit-info', f'{name}: exit was told of {info[1]!r} but the body raised nothing')]
            if want is not None and (info[0] is not type(want) or info[1] is not want):
                return [('exit-info', f'{name}: exit was told of {info[:2]!r} but the body raised {want!r}')]
        if sc.inner_closes and len(sc.inner_closes) != 1:
            return [('reader-close', f'{name}: closing the reader ran its onclose {len(sc.inner_closes)} times')]
        if g == 'sb' and any(p for p in plan['procs'][0]['ops'] if p['rd'] == sc.name and p.get('inner') == 'onclose'):
            if len(sc.inner_closes) != 1 or sc.inner_closes[0] < sc.body_end:
                return [('reader-close', f'{name}: the reader\'s onclose ran at {sc.inner_closes}, '
                         f'the body ended at {sc.body_end}')]
        # closed afterwards, and only once (the source checks that itself)
        if g in ('src', 'inst') and (s not in closed or closed[s].seq > sc.exit_ret):
            return [('left-open', f'{name}: the source was not closed when the scope had been left')]
    # the number of sessions: one per scope
    if g != 'ss' and w.core.opens != len(w.scopes) - sum(
            1 for sc in w.scopes if sc.body_runs == 0 and not any(
                e.kind == 'open_call' and sc.enter_call < e.seq < sc.exit_ret for e in w.events)):
        return [('opened-twice', f'{w.core.opens} opens for {len(w.scopes)} scopes')]
    if w.core.state != 'closed':
        return [('left-open', 'the source is still open 6 s after the last scope was left')]
    for s in opened:
        if len(closes.get(s, [])) != 1:
            return [('close-count', f'session {s} was closed {len(closes.get(s, []))} times')]
    r = bad_errors(w)
    if r is not None:
        return [('undocumented-error', repr(r))]
    if g in ('sb', 'ss') and not any(sc.intr for sc in w.scopes):
        m = lin.check(w, dict(stream.dflts(plan, w), **w.defaults))
        if m:
            return [('wrong-items', m)]
    return []


def bad_errors(w):
    from dst.lin import OK_ERRORS, READ_KINDS
    for r in w.recs:
        if r.kind in READ_KINDS and r.out and r.out[0] == 'exc' and r.out[1] not in OK_ERRORS \
                and r.out[1] not in ('StopIteration', 'InjectedError') + INTR:
            return r
    return None


def nontrivial(w, plan):
    """a body was left by an exception or an interrupt, or several scopes overlapped"""
    return any(sc.got is not None for sc in w.scopes) or len(plan['procs']) > 1
