"""A simulated network under the real http.client / urllib: scripted connections."""
import _pyio
import io
import socket

from dst import sim as S


class Raw(io.RawIOBase):
    """The receiving side of a connection.

    segs: [[delay, bytes]] delivered in order; then `end`: None (peer closed), or an
    exception to raise.
    """

    def __init__(self, net, conn, segs, end):
        self.net, self.conn = net, conn
        self.segs = [list(s) for s in segs]
        self.end = end
        self.received = 0
        self.timeout = None  # seconds, if one was asked for

    def readable(self):
        return True

    def readinto(self, b):
        sim = self.net.sim
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        while self.segs:
            d, data = self.segs[0]
            if d:
                if self.timeout is not None and d > self.timeout:
                    self.segs[0][0] = d - self.timeout
                    sim.sleep(self.timeout, 'network')
                    sim.fault('socket_timeout')
                    raise TimeoutError('timed out')
                self.segs[0][0] = 0
                sim.sleep(d, 'network')
                continue
            sim.point('network')
            if not data:
                self.segs.pop(0)
                continue
            n = min(len(b), len(data))
            b[:n] = data[:n]
            if n == len(data):
                self.segs.pop(0)
            else:
                self.segs[0][1] = data[n:]
            self.received += n
            self.net.last_data = sim.now
            if not self.segs and self.conn.get('end') is None:
                self.net.last_data = sim.now
            return n
        if self.end is not None:
            sim.fault('connection_' + self.conn['end'][0])
            e, self.end = self.end, None
            raise e
        sim.point('network')
        return 0

    def close(self):
        if not self.closed:
            self.net.closed.append(self)
        super().close()


class Sock:
    def __init__(self, net, raw):
        self.net, self.raw = net, raw
        self.sent = b''
        self.is_closed = False

    def sendall(self, data):
        self.sent += bytes(data)
        self.net.sim.point('network')

    def makefile(self, mode='rb', *a, **k):
        return _pyio.BufferedReader(self.raw, self.net.bufsize)

    def setsockopt(self, *a):
        pass

    def settimeout(self, t):
        self.raw.timeout = t

    def gettimeout(self):
        return self.raw.timeout

    def shutdown(self, *a):
        pass

    def close(self):
        self.is_closed = True


ENDS = {'reset': lambda: ConnectionResetError('Connection reset by peer'),
        'timeout': lambda: TimeoutError('timed out'),
        'abort': lambda: ConnectionAbortedError('Software caused connection abort')}


def wire(conn, body):
    """The bytes of a response; offset of every body byte in them."""
    mode = conn['mode']
    head = f'HTTP/{conn.get("v", "1.1")} {conn.get("status", 200)} X\r\n'
    if mode == 'cl':
        head += f'Content-Length: {len(body)}\r\n'
    elif mode == 'chunked':
        head += 'Transfer-Encoding: chunked\r\n'
    if mode == 'close':
        head += 'Connection: close\r\n'
    if conn.get('location'):
        head += f'Location: {conn["location"]}\r\n'
    head = (head + '\r\n').encode()
    if mode != 'chunked':
        return head + body, [len(head) + i for i in range(len(body))]
    out, off, i = head, [], 0
    sizes = list(conn.get('chunks') or []) or [len(body) or 1]
    k = 0
    while i < len(body):
        n = min(max(1, sizes[k % len(sizes)]), len(body) - i)
        k += 1
        out += b'%x\r\n' % n
        off += [len(out) + j for j in range(n)]
        out += body[i:i + n] + b'\r\n'
        i += n
    return out + b'0\r\n\r\n', off


class Net:
    def __init__(self, sim, conns, bodies, bufsize=8192):
        self.sim, self.conns, self.bodies = sim, conns, bodies
        self.bufsize = bufsize
        self.socks = []
        self.base = 0
        self.closed = []
        self.last_data = 0.0

    def expect(self, conns, bodies):
        """What the connections made from now on will be."""
        self.base = len(self.socks)
        self.conns, self.bodies = conns, bodies

    def connect(self, address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT, *a, **k):
        if timeout is socket._GLOBAL_DEFAULT_TIMEOUT:
            timeout = socket.getdefaulttimeout()
        i = len(self.socks) - self.base
        conn = self.conns[min(i, len(self.conns) - 1)]
        body = self.bodies[min(i, len(self.bodies) - 1)]
        data, off = wire(conn, body)
        end = None
        cut = len(data)
        if conn.get('end'):
            kind, frac = conn['end']
            cut = min(len(data), int(frac * len(data)))
            if kind != 'cut':
                end = ENDS[kind]()
            else:
                self.sim.fault('connection_cut')
        data = data[:cut]
        segs, p = [], 0
        for d, n in conn.get('segments') or []:
            segs.append([d, data[p:p + n]])
            p += n
        segs.append([0, data[p:]])
        if conn.get('d'):
            if timeout is not None and conn['d'] > timeout:
                self.sim.sleep(timeout, 'connect')
                self.socks.append(None)
                raise TimeoutError('timed out')
            self.sim.sleep(conn['d'], 'connect')
        if conn.get('refuse'):
            self.sim.fault('connection_refused')
            self.socks.append(None)
            raise ConnectionRefusedError(111, 'Connection refused')
        s = Sock(self, Raw(self, conn, segs, end))
        s.settimeout(timeout)
        s.got_body = sum(1 for o in off if o < cut)
        s.index = i
        self.socks.append(s)
        return s

    def __enter__(self):
        self._old = socket.create_connection
        socket.create_connection = self.connect
        return self

    def __exit__(self, *a):
        socket.create_connection = self._old
