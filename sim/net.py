"""Simulated stream sockets (TCP between and inside hosts, unix sockets inside a host)."""
import errno
import os
import socket as _rs
import stat as _stat

from . import kernel
from .kernel import MS, SEC, US

AF_INET, AF_INET6, AF_UNIX = _rs.AF_INET, _rs.AF_INET6, _rs.AF_UNIX
_next_fd = [100]


def _oserr(no, msg=None):
    return OSError(no, msg or os.strerror(no))


class Net:
    """Link state and the fault surface of the network."""

    def __init__(self, k):
        self.k = k
        kn = k.knobs
        self.lat = int(kn.get("lat_us", 150) * US)
        self.jit = int(kn.get("jit_us", 300) * US)
        self.mss = kn.get("mss", 65536)
        self.sndbuf = kn.get("sndbuf", 262144)
        self.frag_p = kn.get("frag_p", 0.0)
        self.spike_p = kn.get("spike_p", 0.0)
        self.spike_ms = kn.get("spike_ms", 200)
        self.blocked = {}  # frozenset of host names -> held deliveries
        self.heal_gen = {}
        self.conns = []  # live connection ids -> (a, b)
        self.nconn = 0
        self.refuse = {}  # host name -> until

    def is_blocked(self, a, b):
        return a is not b and frozenset((a.name, b.name)) in self.blocked

    def delay(self, a, b, unix=False):
        r = self.k.nrng
        if unix:
            return int(r.random() * 20 * US) + 500
        if a is b:
            d = int(r.random() * 40 * US) + 5 * US
        else:
            d = self.lat + int(r.random() * self.jit)
        if self.spike_p and r.random() < self.spike_p:
            d += int(r.random() ** 2 * self.spike_ms * MS)
            self.k.counters["latency spike"] += 1
        return d

    def partition(self, a, b):
        key = frozenset((a.name, b.name))
        self.heal_gen[key] = self.heal_gen.get(key, 0) + 1
        if key not in self.blocked:
            self.blocked[key] = []
            self.k.counters["partition"] += 1

    def heal(self, a, b):
        key = frozenset((a.name, b.name))
        if key not in self.blocked:
            return
        self.k.counters["heal"] += 1
        # TCP retransmission timers decide when things flow again
        self.k.after(int(self.k.nrng.random() * 400 * MS), self._flow_again, key, self.heal_gen[key])

    def _flow_again(self, key, gen):
        if self.heal_gen[key] != gen or key not in self.blocked:
            return
        for fn, args in self.blocked.pop(key):
            fn(*args)

    def send(self, a, b, delay, fn, *args):
        """Run fn at host b after the network delay, holding it while partitioned."""
        self.k.after(delay, self._arrive, a, b, fn, args)

    def _arrive(self, a, b, fn, args):
        if a is not b:
            held = self.blocked.get(frozenset((a.name, b.name)))
            if held is not None:
                held.append((fn, args))
                self.k.counters["segment held by partition"] += 1
                return
        fn(*args)


class Pipe:
    """One direction of a connection."""

    __slots__ = ("src", "dst", "last", "inflight", "fin_sent", "dead")

    def __init__(self, src, dst):
        self.src, self.dst = src, dst
        self.last = 0
        self.inflight = 0
        self.fin_sent = False
        self.dead = False


class FakeSocket:
    """Stand-in for socket.socket."""

    def __init__(self, family=AF_INET, type=_rs.SOCK_STREAM, proto=0, fileno=None, _proc=None):
        k = kernel.K
        self.k = k
        self.net = k.net
        self.family, self.type, self.proto = family, _rs.SOCK_STREAM, proto
        self.p = _proc or k.ctx_proc
        self.host = self.p.host
        _next_fd[0] += 1
        self.fd = _next_fd[0]
        self.p.sockets[self.fd] = self
        self.selectors = []
        self.closed = False
        self.laddr = None
        self.raddr = None
        self.listening = False
        self.acceptq = []
        self.backlog = 0
        self.state = "new"  # new, connecting, est
        self.so_error = 0
        self.rx = bytearray()
        self.rx_eof = False
        self.err = 0  # pending RST error
        self.rst = False
        self.tx = None  # Pipe
        self.rxp = None
        self.peer = None
        self.unread_limit = self.net.sndbuf
        self.opts = {}
        self.conn_id = None

    # ---- plumbing
    def __hash__(self):
        return self.fd

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"<fakesock fd={self.fd} {self.laddr}->{self.raddr}>"

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def fileno(self):
        return -1 if self.closed else self.fd

    def notify(self):
        for s in self.selectors:
            s.loop.kick()

    def setblocking(self, f):
        pass

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return 0.0

    def setsockopt(self, level, opt, val=None, *a):
        self._chk()
        self.opts[(level, opt)] = val

    def getsockopt(self, level, opt, *a):
        self._chk()
        if level == _rs.SOL_SOCKET and opt == _rs.SO_ERROR:
            e, self.so_error = self.so_error, 0
            return e
        return self.opts.get((level, opt), 0)

    def _chk(self):
        if self.closed:
            raise _oserr(errno.EBADF)

    def getsockname(self):
        self._chk()
        if self.family == AF_UNIX:
            return self.laddr or ""
        return self.laddr or ("0.0.0.0", 0)

    def getpeername(self):
        self._chk()
        if self.state != "est" or self.raddr is None:
            raise _oserr(errno.ENOTCONN)
        return self.raddr

    @property
    def unix(self):
        return self.family == AF_UNIX

    # ---- server side
    def bind(self, addr):
        self._chk()
        h = self.host
        if self.unix:
            path = os.fsdecode(addr) if not isinstance(addr, str) else addr
            if len(path) > 107:
                raise OSError("AF_UNIX path too long")
            if path in h.fs:
                raise _oserr(errno.EADDRINUSE)
            d = path.rsplit("/", 1)[0]
            if d not in h.fs:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
            h.fs[path] = ("sock", self)
            self.laddr = path
            return
        ip, port = addr[0], addr[1]
        if ip not in ("0.0.0.0", "127.0.0.1", h.ip, "::", "") :
            raise _oserr(errno.EADDRNOTAVAIL)
        if port == 0:
            port = self._ephemeral()
        else:
            for (lip, lport), s in h.listeners.items():
                if lport == port and (lip == ip or lip == "0.0.0.0" or ip == "0.0.0.0"):
                    raise _oserr(errno.EADDRINUSE)
        self.laddr = (ip or "0.0.0.0", port)
        h.listeners[self.laddr] = self

    def _ephemeral(self):
        h = self.host
        used = {p for _, p in h.listeners}
        while True:
            port = h.next_port
            h.next_port += 1 + self.k.orng.randrange(3)
            if h.next_port > 60000:
                h.next_port = 32768
            if port not in used:
                return port

    def listen(self, backlog=100):
        self._chk()
        self.listening = True
        if not self.unix:
            self.p.listened.append(f"{self.laddr[0]}:{self.laddr[1]}")
            self.k.record("listen", pid=self.p.pid, addr=self.p.listened[-1])
        self.backlog = max(1, backlog or 1)

    def accept(self):
        self._chk()
        if not self.acceptq:
            raise BlockingIOError(errno.EAGAIN, "would block")
        s = self.acceptq.pop(0)
        s.p = self.p
        self.p.sockets[s.fd] = s
        return s, s.raddr if not s.unix else ""

    # ---- client side
    def connect(self, addr):
        self._chk()
        k = self.k
        if self.state == "connecting":
            raise BlockingIOError(errno.EALREADY, "already")
        if self.unix:
            path = os.fsdecode(addr) if not isinstance(addr, str) else addr
            ent = self.host.fs.get(path)
            if ent is None:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
            lst = ent[1] if ent[0] == "sock" else None
            if lst is None or lst.closed or not lst.listening:
                raise ConnectionRefusedError(errno.ECONNREFUSED, os.strerror(errno.ECONNREFUSED))
            if len(lst.acceptq) > lst.backlog:
                raise BlockingIOError(errno.EAGAIN, "backlog full")
            self._establish(lst)
            return
        ip, port = addr[0], addr[1]
        dst = None
        if ip in ("127.0.0.1", "0.0.0.0", "localhost"):
            dst = self.host
        else:
            for h in k.hosts.values():
                if h.ip == ip:
                    dst = h
        self.state = "connecting"
        if self.laddr is None:
            self.laddr = ("127.0.0.1" if ip == "127.0.0.1" else self.host.ip, self._ephemeral())
        self.raddr = (ip, port)
        if k.sim.plan.get("dials"):
            k.record("dial", pid=self.p.pid, addr=f"{ip}:{port}")
        if dst is None:
            k.after(int(127 * SEC), self._conn_fail, errno.ETIMEDOUT)
        else:
            self._syn(dst, ip, port, 0)
        raise BlockingIOError(errno.EINPROGRESS, "in progress")

    def _syn(self, dst, ip, port, tries):
        n = self.net
        n.send(self.host, dst, n.delay(self.host, dst), self._syn_arrive, dst, ip, port, tries)

    def _syn_arrive(self, dst, ip, port, tries):
        if self.closed or self.state != "connecting":
            return
        n, k = self.net, self.k
        lst = dst.listeners.get((ip, port)) or dst.listeners.get(("0.0.0.0", port))
        if lst is None and ip == "0.0.0.0":
            lst = dst.listeners.get(("127.0.0.1", port))
        until = n.refuse.get((dst.name, port))
        if until is not None and k.now < until:
            k.counters["connection refused"] += 1
            lst = None
        if lst is None or lst.closed or not lst.listening:
            n.send(dst, self.host, n.delay(dst, self.host), self._conn_fail, errno.ECONNREFUSED)
            return
        if len(lst.acceptq) >= lst.backlog + 1:
            if tries >= 6:
                k.after(SEC, self._conn_fail, errno.ETIMEDOUT)
            else:
                k.after((1 << tries) * SEC, self._syn, dst, ip, port, tries + 1)
            return
        self._establish(lst)

    def _conn_fail(self, eno):
        if self.closed or self.state != "connecting":
            return
        self.state = "failed"
        self.so_error = eno
        self.notify()

    def _establish(self, lst):
        n, k = self.net, self.k
        srv = FakeSocket(self.family, _proc=lst.p)
        lst.p.sockets.pop(srv.fd, None)  # no descriptor before accept()
        srv.k, srv.host = k, lst.host
        srv.state = "est"
        srv.laddr = lst.laddr if not self.unix else lst.laddr
        srv.raddr = self.laddr if not self.unix else ""
        srv.peer, self.peer = self, srv
        self.tx = srv.rxp = Pipe(self, srv)
        srv.tx = self.rxp = Pipe(srv, self)
        n.nconn += 1
        self.conn_id = srv.conn_id = n.nconn
        n.conns.append((self, srv))
        srv._lst = lst
        lst.acceptq.append(srv)
        k.after(1 * US, lst.notify)
        if self.unix:
            self.state = "est"
            self.raddr = lst.laddr
        else:
            srv.tx.last = k.now
            d = n.delay(lst.host, self.host)
            srv.tx.last = k.now + d
            n.send(lst.host, self.host, d, self._connected)

    def _connected(self):
        if self.closed:
            return
        if self.state == "connecting":
            self.state = "est"
        self.notify()

    # ---- data
    def readable(self):
        if self.listening:
            return bool(self.acceptq)
        return bool(self.rx) or self.rx_eof or self.err or self.state == "failed"

    def writable(self):
        if self.listening or self.state == "new":
            return False
        if self.state == "connecting":
            return False
        if self.state == "failed" or self.err or self.rst:
            return True
        return self._room() > 0

    def _room(self):
        peer = self.peer
        return self.net.sndbuf - self.tx.inflight - (len(peer.rx) if not peer.closed else 0)

    def send(self, data, flags=0):
        self._chk()
        k = self.k
        if self.err:
            e, self.err = self.err, 0
            raise _oserr(e)
        if self.rst or self.tx is None or self.tx.fin_sent:
            if self.tx is None:
                raise _oserr(errno.ENOTCONN)
            raise _oserr(errno.EPIPE)
        if self.state == "connecting":
            raise BlockingIOError(errno.EAGAIN, "would block")
        if self.unix and self.peer.closed:
            raise _oserr(errno.EPIPE)
        mv = memoryview(data)
        if mv.ndim != 1 or mv.itemsize != 1:
            mv = mv.cast("B")
        if not len(mv):
            return 0
        room = self._room()
        if room <= 0:
            k.counters["send would block"] += 1
            raise BlockingIOError(errno.EAGAIN, "would block")
        n = min(len(mv), room)
        r = k.nrng
        if self.net.frag_p and n > 1 and r.random() < self.net.frag_p:
            n = 1 + int(r.random() ** 3 * n)
            k.counters["short write"] += 1
        payload = bytes(mv[:n])
        self._transmit(payload)
        return n

    def sendmsg(self, buffers, *a):
        n = self.send(b"".join(bytes(b) for b in buffers))
        return n

    def sendall(self, data):
        raise NotImplementedError

    def _transmit(self, payload):
        pipe, net, k = self.tx, self.net, self.k
        r = k.nrng
        off = 0
        while off < len(payload):
            size = min(net.mss, len(payload) - off)
            if net.frag_p and size > 1 and r.random() < net.frag_p:
                size = 1 + int(r.random() * (size - 1))
                k.counters["segmentation"] += 1
            seg = payload[off:off + size]
            off += size
            pipe.inflight += len(seg)
            t = max(k.now + net.delay(self.host, self.peer.host, self.unix), pipe.last + 100)
            pipe.last = t
            net.send(self.host, self.peer.host, t - k.now, self.peer._deliver, pipe, seg)

    def _deliver(self, pipe, seg):
        pipe.inflight -= len(seg)
        if pipe.dead:
            return
        if self.closed:
            # data for a closed socket: RST
            if not self.unix:
                src = pipe.src
                self.net.send(self.host, src.host, self.net.delay(self.host, src.host),
                              src._reset, errno.ECONNRESET)
            return
        self.rx += seg
        self.notify()

    def _fin(self, pipe):
        if pipe.dead or self.closed:
            return
        self.rx_eof = True
        self.notify()

    def _reset(self, eno):
        """An RST arrived."""
        if self.closed or self.rst:
            return
        self.rst = True
        self.err = eno if not self.rx_eof else errno.EPIPE
        if self.rxp is not None:
            self.rxp.dead = True
        self.notify()

    def recv(self, n, flags=0):
        self._chk()
        if self.rx:
            r = self.k.nrng
            m = min(n, len(self.rx))
            if self.net.frag_p and m > 1 and r.random() < self.net.frag_p:
                m = 1 + int(r.random() * (m - 1))
                self.k.counters["short read"] += 1
            out = bytes(self.rx[:m])
            full = self._peer_blocked()
            del self.rx[:m]
            if full and self.peer is not None:
                d = self.net.delay(self.host, self.peer.host, self.unix)
                self.k.after(d, self.peer.notify)
            return out
        if self.err:
            e, self.err = self.err, 0
            if e == errno.EPIPE:
                return b""
            raise _oserr(e)
        if self.rx_eof or self.rst:
            return b""
        if self.state == "failed":
            raise _oserr(self.so_error or errno.ECONNREFUSED)
        raise BlockingIOError(errno.EAGAIN, "would block")

    def _peer_blocked(self):
        p = self.peer
        return p is not None and not p.closed and p.tx is not None and p._room() <= 0

    def recv_into(self, buf, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buf))
        buf[:len(data)] = data
        return len(data)

    def shutdown(self, how):
        self._chk()
        if self.state != "est" or self.rst:
            raise _oserr(errno.ENOTCONN)
        if how in (_rs.SHUT_WR, _rs.SHUT_RDWR):
            self._send_fin()
        if how in (_rs.SHUT_RD, _rs.SHUT_RDWR):
            self.rx_eof = True

    def _send_fin(self):
        pipe = self.tx
        if pipe is None or pipe.fin_sent:
            return
        pipe.fin_sent = True
        net, k = self.net, self.k
        t = max(k.now + net.delay(self.host, self.peer.host, self.unix), pipe.last + 100)
        pipe.last = t
        net.send(self.host, self.peer.host, t - k.now, self.peer._fin, pipe)

    def detach(self):
        fd = self.fd
        self.close()
        return fd

    def close(self):
        if self.closed:
            return
        self._kernel_close()

    def _kernel_close(self, dying=False):
        if self.closed:
            return
        for s in list(self.selectors):
            s.map.pop(self.fd, None)
        self.selectors = []
        self.closed = True
        self.p.sockets.pop(self.fd, None)
        h = self.host
        if self.laddr is not None:
            if not self.unix:
                if h.listeners.get(self.laddr) is self:
                    del h.listeners[self.laddr]
        if self.listening:
            q, self.acceptq = self.acceptq, []
            for s in q:
                s._abort()
        peer = self.peer
        if peer is None:
            return
        try:
            self.net.conns.remove((self, peer) if (self, peer) in self.net.conns else (peer, self))
        except ValueError:
            pass
        if self.rst:
            return
        if self.rx:
            # unread data: RST instead of FIN
            self._abort_tx()
        else:
            self._send_fin()

    def _abort_tx(self):
        pipe, net, k, peer = self.tx, self.net, self.k, self.peer
        t = max(k.now + net.delay(self.host, peer.host, self.unix), pipe.last + 100)
        pipe.last = t
        pipe.fin_sent = True
        net.send(self.host, peer.host, t - k.now, peer._reset, errno.ECONNRESET)

    def _abort(self):
        self.closed = True
        if self.peer is not None:
            self._abort_tx()


class SocketModule:
    """`socket` as the asyncio modules and the code under test see it."""

    def __init__(self):
        self.socket = FakeSocket

    def __getattr__(self, name):
        return getattr(_rs, name)

    def socketpair(self, *a, **kw):
        raise OSError(errno.ENOSYS, "socketpair not simulated")

    def getaddrinfo(self, *a, **kw):
        raise OSError(errno.ENOSYS, "blocking getaddrinfo not simulated")

    def gethostname(self):
        return kernel.K.ctx_proc.host.name

    def getfqdn(self, name=""):
        return kernel.K.ctx_proc.host.name

    def gethostbyname(self, n):
        return kernel.K.ctx_proc.host.ip


def reset_connection(k, pair):
    """A middlebox (or a cable) resets an established connection on both sides."""
    a, b = pair
    k.counters["connection reset"] += 1
    for s in (a, b):
        if s.tx is not None:
            s.tx.dead = True
    for s in (a, b):
        k.after(k.nrng.randrange(1, 500) * US, s._reset, errno.ECONNRESET)
