"""Linearizability of reader calls against an ordered, bounded window.

Shared state: (appended, lowest retained index, stopped).  Only appends (in source order),
manual drops and the stop change it; reader calls look at it and move private cursors, so a
reader call is linearized as soon as it matches and the search branches only over the
order of the mutations (Wing & Gong / Lowe with memoisation).
"""
from bisect import bisect_left, bisect_right

INF = 1 << 60
OK_ERRORS = ('ValueError', 'IndexError', 'LookupError', 'KeyError', 'NoDataAvailableError',
             'BufferError', 'Stream2PyError')

INJECTED = ('InjectedError', 'InjectedBase', 'KeyboardInterrupt', 'SystemExit')


class Op:
    __slots__ = ('rec', 'kind', 'inv', 'ret', 'out', 'a', 'ck')


def effective(kind, args, dflt):
    """Arguments of a call with the reader's defaults filled in."""
    d = dict(n=1, peek=False, ign=False, strict=False)
    d['n'] = dflt.get('read_size', 1)
    d['peek'] = dflt.get('peek', False)
    d['ign'] = dflt.get('ignore_no_item_found', False)
    d['strict'] = dflt.get('strict_n', False)
    a = args if isinstance(args, dict) else {}
    if kind == 'read':
        for k, kk in (('n', 'n'), ('peek', 'peek'), ('ign', 'ignore_no_item_found'),
                      ('strict', 'strict_n')):
            if a.get(kk) is not None:
                d[k] = a[kk]
        d['blocking'] = a.get('blocking', False)
        return d
    if kind in ('next', 'iter', 'nextd'):
        d['ign'] = True
        return d
    if kind == 'oldnext':
        return dict(n=a.get('n', 1), peek=a.get('peek', False),
                    ign=a.get('ignore_no_item_found', False), strict=a.get('strict_n', False))
    if kind == 'range':
        e = dict(a)
        if e.get('ignore_no_item_found') is None:
            e['ignore_no_item_found'] = d['ign']
        return e
    return dict(a)


def window_answer(kind, a, W, K, ck):
    """What a call may answer on window W (uids) with keys K and cursor key ck.

    Returns a list of acceptable outcomes; 'ERR' stands for a documented error, 'END'
    for 'nothing there' of next/iterating/blocking calls.
    """
    if kind in ('read', 'oldnext', 'next', 'nextd', 'iter'):
        i = 0 if ck is None else bisect_right(K, ck)
        avail = W[i:]
        blocking = a.get('blocking')
        if not avail:
            if kind in ('next', 'nextd', 'iter') or blocking:
                return ['NONE', 'END']
            return [('ok', None)] if a['ign'] else ['ERR']
        n = a['n']
        if n > 1:
            if a['strict'] and len(avail) < n:
                return ['ERR'] + ([('ok', None)] if a['ign'] else [])
            return [('ok', avail[:n])]
        return [('ok', avail[0])]
    if kind == 'head':
        return [('ok', W[0])] if W else ['ERR']
    if kind == 'tail':
        if a.get('only_new_items') and ck is not None:
            if not W or not K[-1] > ck:
                return [('ok', None)] if a.get('ignore_no_item_found') else ['ERR']
            return [('ok', W[-1])]
        if not W:
            return [('ok', None)] if a.get('ignore_no_item_found') else ['ERR']
        return [('ok', W[-1])]
    if kind == 'range':
        ign = a.get('ignore_no_item_found')
        none = [('ok', None)] if ign else ['ERR']
        s, e = a['start'], a['stop']
        if a.get('only_new_items') and ck is not None:
            i = bisect_right(K, ck)
            if i == len(K):
                return none
            s = max(s, K[i])
        if a.get('start_le'):
            j = bisect_right(K, s)
            if j:
                s = K[j - 1]
        if a.get('stop_ge'):
            j = bisect_left(K, e)
            if j == len(K):
                return none
            e = K[j]
        res = W[bisect_left(K, s):bisect_right(K, e)]
        if a.get('step'):
            res = res[::a['step']]
        if not res:
            return [('ok', [])] + none if a.get('peek') else none
        return [('ok', res)]
    raise AssertionError(kind)


def moves(kind, a, out):
    """The uid the cursor moves to, or None."""
    if out is None or out[0] != 'ok' or out[1] is None or out[1] == 'END':
        return None
    if a.get('peek'):
        return None
    v = out[1]
    if isinstance(v, list):
        return v[-1] if v else None
    return v


READ_KINDS = ('read', 'oldnext', 'next', 'nextd', 'iter', 'head', 'tail', 'range')


def prepare(w, dflts):
    """Reader operations per reader, with their cursor before the call."""
    per = {}
    cur = {}
    for r in w.recs:
        if r.reader is None or r.ret is None:
            continue
        if r.kind == 'mk':
            cur[r.reader] = None
            continue
        if r.kind == 'delcur' and r.out[0] == 'ok':
            cur[r.reader] = None
            continue
        if r.kind == 'setcur' and r.out[0] == 'ok':
            cur[r.reader] = w.items[r.args[0]][1]
            continue
        if r.kind not in READ_KINDS:
            continue
        if r.out[0] == 'exc' and r.out[1] in INJECTED:
            continue  # a failing key or an interrupt says nothing about the window
        if r.out[:2] == ('exc', 'StreamNotStartedError') and r.reader.startswith('@sb'):
            own = own_start(w, r.sess)
            if own is None or own.out is None or own.out[0] != 'ok':
                continue  # there is no session to read
        o = Op()
        o.rec, o.kind, o.inv, o.ret = r, r.kind, r.inv, r.ret
        o.a = effective(r.kind, r.args, dflts.get(r.reader, {}))
        o.ck = cur.get(r.reader)
        o.out = norm(r, o)
        to = moves(r.kind, o.a, r.out)
        if to is not None:
            cur[r.reader] = w.items[to][1] if to in w.items else cur.get(r.reader)
        per.setdefault(r.reader, []).append(o)
    return per


def norm(r, o):
    out = r.out
    if r.kind in ('next', 'nextd', 'iter') or o.a.get('blocking'):
        if out[0] == 'end' or out[0] == 'exc' and out[1] == 'StopIteration' or out == ('ok', 'END'):
            return 'END'
        if out == ('ok', None):
            return 'END' if o.a.get('blocking') else 'NONE'
    if out[0] == 'exc':
        return 'ERR' if out[1] in OK_ERRORS else out
    return out


class Search:
    def __init__(self, items, keys, maxlen, apps, drops, stop, readers, limit=60000):
        """apps: [(lo, hi, optional)] for items in order; drops: [(lo, hi, n, ok)];
        stop: (lo, hi) or None; readers: lists of Op."""
        self.I, self.K, self.maxlen = items, keys, maxlen
        self.apps, self.drops, self.stop, self.readers = apps, drops, stop, readers
        self.seen = set()
        self.limit = limit
        self.best = (-1, None)
        self.gave_up = False

    def win(self, na, lo):
        if self.maxlen is not None:
            lo = max(lo, na - self.maxlen)
        return lo

    def match(self, o, na, lo, st):
        W, K = self.I[lo:na], self.K[lo:na]
        acc = window_answer(o.kind, o.a, W, K, o.ck)
        out = o.out
        if out == 'END':
            return 'END' in acc and st
        if out == 'NONE':
            # refused only when the stop had been completed before the call
            return 'NONE' in acc and not (self.stop is not None and self.stop[1] < o.inv)
        return out in acc

    def run(self):
        stack = [(0, 0, 0, 0, tuple(0 for _ in self.readers))]
        while stack:
            na, lo, dm, st, ptrs = stack.pop()
            ptrs = list(ptrs)
            # greedy phase
            while True:
                m = INF
                if na < len(self.apps) and not self.apps[na][2]:
                    m = min(m, self.apps[na][1])
                for j, d in enumerate(self.drops):
                    if not dm >> j & 1:
                        m = min(m, d[1])
                if self.stop is not None and not st:
                    m = min(m, self.stop[1])
                for p, ops in zip(ptrs, self.readers):
                    if p < len(ops):
                        m = min(m, ops[p].ret)
                moved = False
                for i, ops in enumerate(self.readers):
                    p = ptrs[i]
                    if p < len(ops) and ops[p].inv < m and self.match(ops[p], na, lo, st):
                        ptrs[i] += 1
                        moved = True
                if not moved:
                    break
            if all(p == len(ops) for p, ops in zip(ptrs, self.readers)):
                return True
            key = (na, lo, dm, st, tuple(ptrs))
            if key in self.seen:
                continue
            self.seen.add(key)
            if len(self.seen) > self.limit:
                self.gave_up = True
                return True
            prog = sum(ptrs)
            if prog > self.best[0]:
                stuck = [ops[p] for p, ops in zip(ptrs, self.readers) if p < len(ops)]
                stuck.sort(key=lambda o: o.ret)
                self.best = (prog, (stuck[0], na, lo, st))
            if na < len(self.apps) and self.apps[na][0] < m:
                na2 = na + 1
                stack.append((na2, self.win(na2, lo), dm, st, tuple(ptrs)))
            for j, d in enumerate(self.drops):
                if not dm >> j & 1 and d[0] < m:
                    have = na - lo
                    n, ok = d[2], d[3]
                    if ok and n > have or not ok and n <= have:
                        continue
                    stack.append((na, min(na, lo + n), dm | 1 << j, st, tuple(ptrs)))
            if self.stop is not None and not st and self.stop[0] < m:
                stack.append((na, lo, dm, 1, tuple(ptrs)))
        return False

    def message(self):
        if self.best[1] is None:
            return 'no linearization'
        o, na, lo, st = self.best[1]
        W = self.I[lo:na]
        return (f'no order of the overlapping calls explains {o.rec.reader}.{o.kind}{o.rec.args} '
                f'-> {o.rec.out} (cursor key {o.ck}); e.g. with window '
                f'{[f"{u}:{k}" for u, k in zip(W, self.K[lo:na])]}'
                f'{" stopped" if st else ""} the answer would be '
                f'{window_answer(o.kind, o.a, W, self.K[lo:na], o.ck)}')


def session_muts(w, sess, maxlen):
    """(items, keys, apps, stop interval) of a session, from the source's own events."""
    prod = w.produced(sess)
    stop_lo, stop_hi = session_stop(w, sess)
    items, keys, apps = [], [], []
    for uid, key, seq, t, nseq, nkind in prod:
        if nkind == 'key_fail' or keys and not key > keys[-1]:
            continue
        hi = nseq if nseq is not None else INF
        optional = nseq is None or (nkind == 'close_call' and stop_lo is not None and stop_lo < hi)
        items.append(uid)
        keys.append(key)
        apps.append((seq, hi, optional))
    return items, keys, apps, (stop_lo, stop_hi) if stop_lo is not None else None


def own_start(w, sess):
    """The start call that began a session, or None."""
    ev = [e for e in w.events if e.sess == sess and e.kind == 'open_call']
    if not ev:
        return None
    e = ev[0]
    cov = [r for r in w.recs if r.kind in ('start', 'mk') and r.inv < e.seq and (r.ret is None or r.ret > e.seq)]
    mine = [r for r in cov if r.task == e.task]
    return mine[0] if mine else cov[0] if len(cov) == 1 else None


def session_stop(w, sess):
    """Interval in which the session became stopped (None, None if it did not)."""
    opened = [e.seq for e in w.events if e.sess == sess and e.kind == 'open_ret']
    if not opened:
        return None, None
    opened = opened[0]
    lo = hi = None
    nxt = min([e.seq for e in w.events if e.sess > sess and e.kind == 'open_call'], default=INF)
    own = own_start(w, sess)
    begun = own.inv if own is not None else opened
    ready = (own.ret or INF) if own is not None else opened

    def cand(a, b):
        nonlocal lo, hi
        lo = a if lo is None else min(lo, a)
        b = INF if b is None else b
        hi = b if hi is None else min(hi, b)

    if own is not None and own.out is not None and own.out[0] != 'ok':
        cand(opened, own.ret)
    for r in w.recs:
        if r.kind == 'rclose' and (r.ret is None or r.ret > opened) and r.inv < nxt:
            cand(max(r.inv, opened), None)  # closing a reader stops only if it was the last
            continue
        if r.kind not in ('stop', 'exit', 'restart', 'start') or r is own:
            continue
        # a start also stops a running session; one overlapping the beginning of this
        # session may have come before it
        if (r.ret is None or r.ret > begun) and r.inv < nxt:
            cand(max(r.inv, opened), r.ret if r.inv > ready else None)
    evs = [e for e in w.events if e.sess == sess]
    for i, e in enumerate(evs):
        if e.kind in ('read_fail', 'key_fail', 'info_fail', 'keyget_fail'):
            close = [f.seq for f in evs[i:] if f.kind == 'close_call']
            cand(e.seq, close[0] if close else None)
    # an item that cannot be stored ends the session too
    prev = None
    for uid, key, seq, t, nseq, nkind in w.produced(sess):
        if prev is not None and not key > prev and nkind != 'key_fail':
            cand(seq, nseq)
            break
        prev = key
    closes = [e.seq for e in evs if e.kind == 'close_call']
    if closes:
        if lo is None:
            lo = INF
        hi = closes[0] if hi is None else min(hi, closes[0])
    return lo, hi


def session_drops(w, sess):
    """Manual drops that did, or may, belong to a session."""
    if w.plan['buf'].get('auto_drop', True):
        return []
    opened = [e.seq for e in w.events if e.sess == sess and e.kind == 'open_ret']
    if not opened:
        return []
    own = own_start(w, sess)
    begun = own.inv if own is not None else opened[0]
    ready = (own.ret or INF) if own is not None else opened[0]
    nxt = [s for s in {e.sess for e in w.events} if isinstance(s, int) and s > sess]
    until = INF
    if nxt:
        o = own_start(w, min(nxt))
        until = o.inv if o is not None else min(e.seq for e in w.events if e.sess == min(nxt))
    out = []
    for r in w.recs:
        if r.kind != 'drop' or r.out is None:
            continue
        ret = r.ret if r.ret is not None else INF
        if r.inv >= ready and ret <= until:
            out.append((r.inv, ret, r.args[0], r.out[0] == 'ok'))
        elif ret > begun:
            out.append((max(r.inv, opened[0]), INF, r.args[0], r.out[0] == 'ok'))
    return out


def check(w, dflts=None, sessions=None):
    """Violation message, or None."""
    dflts = dflts or {}
    per = prepare(w, dflts)
    maxlen = w.plan['buf'].get('maxlen', 100)
    sess = {}
    for rd, ops in per.items():
        by = {}
        for o in ops:  # a reader may have been attached to another session in between
            by.setdefault(o.rec.sess, []).append(o)
        for s, o in by.items():
            sess.setdefault(s, []).append(o)
    for s, readers in sorted(sess.items(), key=lambda kv: str(kv[0])):
        if s is None or sessions is not None and s not in sessions:
            continue
        items, keys, apps, stop = session_muts(w, s, maxlen)
        drops = session_drops(w, s)
        sr = Search(items, keys, maxlen, apps, drops, stop, readers)
        if not sr.run():
            return sr.message()
        if sr.gave_up:
            w.sim.probe('linearizability_gave_up')
        else:
            w.sim.probe('linearizability_checked')
    return None
