"""C16 an HTTP stream delivers the response body exactly, however it arrives."""
import codecs

from dst import gen, stream
from dst.net import Net
from dst.sim import SimAbort, HarnessError

ID = 'C16'
ENCODINGS = ['utf-8', 'utf-8', 'utf-16', 'utf-8-sig', 'latin-1', 'utf-16-le', 'shift_jis']
URL = 'http://h.example/x?q=1'
TEXT = {'latin-1': 'abcxyz é\u00ffß', 'shift_jis': 'ab漢字かなcd'}


def body_of(conn):
    if conn.get('text') is not None:
        t = conn['text']
        if conn.get('bad') is not None:  # a byte no character starts with
            return t[:conn['bad']].encode() + b'\xff' + t[conn['bad']:].encode()
        return t.encode(conn['enc'])
    return bytes.fromhex(conn['hex'])


def make(rng, tier):
    conns = []
    enc = rng.choice(ENCODINGS) if rng.random() < 0.5 else ''
    redirect = rng.random() < 0.15
    for _ in range(rng.choice([1, 1, 2, 2, 7] if redirect else [1, 1, 2])):
        n = rng.choice([0, 1, 5, 20, 60, 120])
        c = {'mode': rng.choice(['cl', 'chunked', 'close']), 'v': '1.1'}
        if enc:
            c['enc'] = enc
            c['text'] = ''.join(rng.choice(TEXT.get(enc, 'ab cé漢\U0001f600ñ\n')) for _ in range(n))
            if enc == 'utf-8' and n and rng.random() < 0.15:
                c['bad'] = rng.randint(0, n)
        else:
            c['hex'] = bytes(rng.randrange(256) for _ in range(n)).hex()
        if c['mode'] == 'chunked':
            c['chunks'] = [rng.choice([1, 2, 3, 7, 16, 100]) for _ in range(rng.randint(1, 4))]
        if c['mode'] == 'close' and rng.random() < 0.5:
            c['v'] = '1.0'
        segs = []
        for _ in range(rng.choice([0, 1, 3, 10, 40])):
            segs.append([rng.choice([0, 0, 0.01, 0.2, 1.1]), rng.choice([1, 1, 2, 5, 13, 50])])
        if rng.random() < 0.5:
            segs = [[0, rng.choice([20, 60, 80])]] + segs
        if segs and rng.random() < 0.15:  # a connection that is silent for long
            rng.choice(segs)[0] = rng.choice([15, 45, 100])
        c['segments'] = segs
        x = rng.random()
        if x < 0.35:
            c['end'] = [rng.choice(['reset', 'timeout', 'cut', 'abort']),
                        round(rng.choice([rng.random(), 0.5 + rng.random() / 2]), 3)]
        elif x < 0.4:
            c['status'] = rng.choice([404, 500])
        elif x < 0.43:
            c['refuse'] = True
        if rng.random() < 0.2:
            c['d'] = rng.choice([0.3, 0.3, 25, 100])
        if redirect and rng.random() < 0.8:
            c['redirects'] = [rng.choice([301, 302, 303, 307]) for _ in range(rng.randint(1, 3))]
        conns.append(c)
    plan = {'conns': conns, 'enc': enc, 'sched': gen.sched(rng),
            'args': rng.choice([[], [1], [2], [3], [7], [64], [5000]]),
            'bufsize': rng.choice([1, 4, 8192, 8192]),
            'buf': {'maxlen': rng.choice([None, 100000])}, 'src': {'item': 'tuple'}}
    if plan['args'] and rng.random() < 0.3:
        plan['scalar_arg'] = True
    if rng.random() < 0.5:
        plan['buf']['sleep_time_on_read_none_s'] = rng.choice([0.05, 1])
    if rng.random() < 0.6:
        plan['jumps'] = [[rng.choice([0.0, 0.05, 0.2, 1.0]), rng.choice([-3600, -1, -0.01, 100, 1e-7])]
                         for _ in range(rng.randint(1, 3))]
    plan['clients'] = [{'mode': rng.choice(['iter', 'next', 'blocking', 'chunk']),
                        'n': rng.choice([1, 2, 5])} for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.5:
        r = plan['request'] = {'method': rng.choice(['GET', 'get', 'POST', 'Post', 'PUT', 'DELETE'])}
        if rng.random() < 0.5:
            r['headers'] = {k: rng.choice(['1', 'a b', 'x' * 50]) for k in rng.sample(
                ['X-Tok', 'Accept', 'User-Agent', 'Authorization', 'x-lower'], rng.randint(1, 3))}
        if rng.random() < 0.7:
            r['body'] = rng.choice(['{"a": 1}', 'é漢', 'x' * 3000, '', [1, 2, 0, 255]])
    if redirect and plan.get('request', {}).get('method', 'GET').upper() != 'GET':
        del plan['request']
    plan['horizon'] = rng.choice([0.1, 0.5, 30, 30, 60, 140] if rng.random() < 0.3 else [0.1, 0.5, 30, 30, 60])
    return plan


def run(sim, plan):
    from stream2py.sources.http import HTTPResponseReader
    import stream2py

    w = stream.World(sim, {'src': {'sessions': [{}]}})
    sim.stuck_max = sim.stuck_at = 200000  # reading many small items takes many points
    sim.max_points = 1500000
    conns = plan['conns']
    net = w.net = Net(sim, conns, [], plan['bufsize'])
    args = tuple(plan['args'])
    if plan.get('scalar_arg'):
        args = args[0]
    w.sessions_seen = []
    slow = any(d > 10 for c in conns for d, _ in c['segments']) or any(c.get('d', 0) > 10 for c in conns)
    long = slow or len(conns) > 2
    buf = dict(plan['buf'])
    if long:  # much simulated time: fewer idle polls
        buf['sleep_time_on_read_none_s'] = 1
    with net:
        kw = dict(plan.get('request') or {})
        if isinstance(kw.get('body'), list):
            kw['body'] = bytes(kw['body'])
        src = HTTPResponseReader(URL, encoding=plan['enc'], response_read_args=args, **kw)
        sb = stream2py.StreamBuffer(src, **buf)
        for s in range(len(conns)):
            o = {'conn': s, 'err': None, 'got': [], 'ends': []}
            w.sessions_seen.append(o)
            made = len(net.socks)
            hops = [{'mode': 'cl', 'status': k, 'location': f'/hop{i}'} for i, k in
                    enumerate(conns[s].get('redirects') or [])]
            net.expect(hops + [conns[s]], [b''] * len(hops) + [body_of(conns[s])])
            try:
                sb.start()
            except (SimAbort, HarnessError):
                raise
            except BaseException as e:
                e.__traceback__ = None
                o['err'] = e
                continue
            # the session's own connection (none if it was never asked for)
            sock = net.socks[-1] if len(net.socks) > made else None
            first = net.socks[made] if sock else None
            o['sent'] = bytes(first.sent) if first else None
            if hops:
                sim.fault('redirect')
            ths = []
            readers = []
            for k, c in enumerate(plan['clients']):
                rd = sb.mk_reader()
                if long:
                    rd.set_sleep_time_on_iter_none(0.7)
                readers.append(rd)
                got = []
                o['got'].append(got)

                def consume(rd=rd, c=c, got=got):
                    if c['mode'] == 'iter':
                        got.extend(rd)
                        return
                    while True:
                        if c['mode'] == 'next':
                            try:
                                x = next(rd)
                            except StopIteration:
                                return
                            x = [x] if x is not None else []
                        elif c['mode'] == 'blocking':
                            x = rd.read(blocking=True)
                            if x is None:
                                return
                            x = [x]
                        else:
                            stopped = rd.is_stopped
                            x = rd.read(c['n'], ignore_no_item_found=True)
                            x = [] if x is None else x if c['n'] > 1 else [x]
                            if not x and stopped:
                                return
                        got.extend(x)
                        if not x:
                            sim.sleep(0.7 if long else 0.1, 'client-poll')
                ths.append(sim.spawn(consume, f'c{s}.{k}'))
            sim.sleep(plan['horizon'], 'horizon')
            o['running'] = sb.is_running
            o['t_stop'] = sim.now
            o['received'] = sock.raw.received if sock else 0
            o['last_data'] = net.last_data
            o['pending'] = len(sock.raw.segs) if sock else 0
            sb.stop()
            for t in ths:
                t.join()
            sim.settle(60 if not slow else 320)  # a read pending at the stop may take that long
            o['closed'] = sock is None or sock.raw.closed
            o['got_body'] = sock.got_body if sock else 0
    w.note = None
    import hashlib
    h = hashlib.blake2b(digest_size=8)
    for o in w.sessions_seen:
        h.update(repr([[x for x in g] for g in o['got']]).encode())
        h.update(repr(o['err']).encode())
    dig = h.hexdigest()
    w.history_digest = lambda: dig
    return w


def bad_request(sent, r):
    """What is wrong with the request that reached the server."""
    head, _, body = sent.partition(b'\r\n\r\n')
    lines = head.decode('latin-1').split('\r\n')
    method = r.get('method', 'GET').upper()
    if lines[0] != f'{method} /x?q=1 HTTP/1.1':
        return f'asked {lines[0]!r}'
    got = {}
    for ln in lines[1:]:
        k, _, v = ln.partition(':')
        got[k.strip().lower()] = v.strip()
    if got.get('host') != 'h.example':
        return f'headers {got!r}'
    for k, v in (r.get('headers') or {}).items():
        if got.get(k.lower()) != v:
            return f'header {k} is {got.get(k.lower())!r} instead of {v!r}'
    want = r.get('body', '')
    want = b'' if method == 'GET' else bytes(want) if isinstance(want, list) else want.encode()
    if body != want or want and got.get('content-length') != str(len(want)):
        return f'body {body[:80]!r} (content-length {got.get("content-length")}) instead of {want[:80]!r}'
    return None


def check(w, plan):
    conns = plan['conns']
    size = plan['args'][0] if plan['args'] else None
    for o in w.sessions_seen:
        c = conns[o['conn']]
        body = body_of(c)
        bad = c.get('refuse') or c.get('status', 200) != 200
        if o['err'] is not None:
            if not bad and not c.get('end'):
                return [('start-failed', f'session {o["conn"]}: {o["err"]!r}')]
            continue
        if bad:
            return [('error-swallowed', f'session {o["conn"]} started although the request failed')]
        if o['sent'] is None:
            return [('no-request', f'session {o["conn"]} started without a connection of its own')]
        m = bad_request(o['sent'], plan.get('request') or {})
        if m:
            return [('wrong-request', f'session {o["conn"]}: {m}')]
        if not o['closed']:
            return [('not-closed', f'session {o["conn"]}: the response was never closed')]
        full = c['text'] if plan['enc'] else body
        if c.get('bad') is not None:
            full = full[:c['bad']]  # what cannot be decoded is not passed over
        if plan['enc']:
            dec = codecs.getincrementaldecoder(plan['enc'])
        # what must have been delivered
        complete = not c.get('end') and o['pending'] == 0 and o['t_stop'] > o['last_data'] + 3.5 \
            and not plan['sched'].get('p_stall')
        least = 0
        if c.get('end') and o['pending'] == 0 and size and o['t_stop'] > o['last_data'] + 3.5 \
                and not plan['sched'].get('p_stall'):
            least = o['got_body'] // size * size
        if c.get('bad') is not None:
            n = len(full.encode())
            least = min(least, n // size * size) if size else 0
            if complete and size:
                least = n // size * size
            complete = False
        for got in o['got']:
            last = None
            for x in got:
                if not (isinstance(x, tuple) and len(x) == 2):
                    return [('wrong-item', f'{x!r}')]
                if not x[1]:
                    return [('empty-item', f'{x!r}')]
                if last is not None and not x[0] > last:
                    return [('timestamps', f'{x[0]!r} after {last!r}')]
                last = x[0]
            try:
                text = (''.join if plan['enc'] else b''.join)([x[1] for x in got])
            except TypeError as e:
                return [('wrong-item', f'{e}: {got!r}'[:300])]
            if not full.startswith(text):
                return [('not-the-body', f'session {o["conn"]}: delivered {text!r}, body {full!r}'[:600])]
            if complete and text != full:
                return [('incomplete', f'session {o["conn"]}: delivered {text!r} of {full!r}'[:600])]
            if least:
                want = body[:least]
                if plan['enc']:
                    want = dec().decode(want)
                if not text.startswith(want):
                    return [('lost', f'session {o["conn"]}: delivered {text!r}, but {want!r} had been received '
                             f'before the error'[:600])]
        if len({tuple(map(repr, g)) for g in o['got']}) > 1 and complete:
            return [('different', f'consumers got {o["got"]!r}'[:600])]
        # a body cut short is an error only where http.client can tell (and has got the headers)
        told = c.get('end') and (c['end'][0] != 'cut' or o['got_body'] and (
            c['mode'] == 'chunked' or c['mode'] == 'cl' and not size))
        if told and o['pending'] == 0 and o['running'] and \
                o['t_stop'] > o['last_data'] + 3.5 and not plan['sched'].get('p_stall') and \
                o['got_body'] < len(body):
            return [('no-end', f'session {o["conn"]}: the connection failed ({c["end"]}) but the stream goes on')]
    return []


def nontrivial(w, plan):
    """some of the body arrived"""
    return any(o.get('received') for o in w.sessions_seen)
