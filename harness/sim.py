"""A deterministic world for python-snmp: virtual clock, virtual locks, virtual UDP, scripted or scheduled threads.

install() must run before snmp is imported.  It replaces threading's lock primitives, Thread, the clock and the socket
class; nothing in /repo is changed.  Two modes:
  seq   one thread; while it is blocked, the environment's timeline (deliveries) runs inline as the listener thread
  conc  real threads passing a baton; a policy decides at every line of snmp code who runs next
"""
import _thread, gc, heapq, os, random, socket as _socket, sys, threading, time as _time
import common

BASE, TPS = 1 << 30, 1024
_real = dict(allocate=_thread.allocate_lock, time=_time.time, monotonic=_time.monotonic, sleep=_time.sleep,
             Thread=threading.Thread, Lock=threading.Lock, RLock=threading.RLock, alloc=threading._allocate_lock,
             get_ident=threading.get_ident, tmono=threading._time, socket=_socket.socket)
WORLD = None

class SimHang(BaseException):
    """A thread that can never continue, or never stops computing."""
class SimAbort(BaseException):
    pass

class SimLock:
    __slots__ = ("held", "who", "__weakref__")
    def __init__(self):
        self.held, self.who = False, None
    def acquire(self, blocking=True, timeout=-1):
        if WORLD is None:
            if not self.held:
                self.held = True
                return True
            if not blocking: return False
            raise SimHang("lock outside a world")
        return WORLD.acquire(self, blocking, timeout)
    def release(self):
        if not self.held:
            if WORLD is not None and WORLD.aborting: return
            raise RuntimeError("release unlocked lock")
        self.held, self.who = False, None
        if WORLD is not None: WORLD.released(self)
    def locked(self): return self.held
    def __enter__(self): return self.acquire()
    def __exit__(self, *a): self.release()
    def _at_fork_reinit(self): self.held = False

def _now():
    return WORLD.clock() if WORLD is not None else float(BASE)
def _wall():
    """The system's clock, which an administrator or NTP may set at any moment."""
    return _now() + (WORLD.wall / TPS if WORLD is not None else 0)
def _sleep(s):
    if WORLD is not None: WORLD.sleep(s)
def _ident():
    return WORLD.ident() if WORLD is not None else _real["get_ident"]()

class SimThread:
    """threading.Thread: runs its target at once (the multiplexor below returns immediately)."""
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.name, self.daemon = name or "sim", daemon
        self.started = False
    def start(self): self.started = True; self.run()
    def run(self):
        if self.target is not None: self.target(*self.args, **self.kwargs)
    def join(self, timeout=None): pass
    def is_alive(self): return False

class SimSocket:
    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        self.fam, self.addr, self.closed = family, None, False
        if WORLD is not None: WORLD.sockets.append(self)
        self.no = 1000 + (len(WORLD.sockets) if WORLD is not None else 0)
    def setblocking(self, b): pass
    def settimeout(self, t): pass
    def setsockopt(self, *a): pass
    def bind(self, addr): self.addr = (addr[0], addr[1] or 40000 + self.no)
    def getsockname(self): return self.addr
    def fileno(self): return -1 if self.closed else self.no
    def sendto(self, data, *rest):
        if WORLD is not None: WORLD.sent(self, bytes(data), rest[-1])
        return len(data)
    def recvfrom(self, n): raise BlockingIOError(11, "no data")
    def close(self): self.closed = True

class SimMux:
    def __init__(self, recvSize=1472):
        self.transports, self.listener = [], None
    def register(self, sock): self.transports.append(sock)
    def listen(self, listener):
        self.listener = listener
        if WORLD is not None: WORLD.mux = self
    def stop(self): pass
    def close(self):
        for s in self.transports: s.close()

# ---------------------------------------------------------------- shrunk identifier spaces
GEN_BITS = None
def _replace(real, fake):
    """Everywhere in the loaded library, `fake` stands for `real`."""
    for name, mod in list(sys.modules.items()):
        if name == "snmp" or name.startswith("snmp."):
            for k, v in list(vars(mod).items()):
                if v is real: setattr(mod, k, fake)
def _shrink_generators():
    import snmp.utils as u
    real = u.NumberGenerator
    class NumberGenerator:
        def __new__(cls, n, *a, **k):
            return real(n if GEN_BITS is None else min(n, GEN_BITS), *a, **k)
    _replace(real, NumberGenerator)

_installed = False
def install():
    """Patch, then import every snmp module the scenarios use."""
    global _installed
    if _installed: return
    _installed = True
    common.setup_repo_import()
    assert not any(m == "snmp" or m.startswith("snmp.") for m in sys.modules), "snmp imported before the world"
    patch()
    import snmp.engine
    _shrink_generators()
    import snmp.transport.udp as udp
    _replace(udp.UdpMultiplexor, SimMux)
    unpatch()

def patch():
    threading.Lock = SimLock; threading._allocate_lock = SimLock
    threading.RLock = threading._PyRLock
    threading.Thread = SimThread
    threading.get_ident = _ident
    threading._time = _now
    _time.time = _wall; _time.monotonic = _now; _time.sleep = _sleep
    _socket.socket = SimSocket
def unpatch():
    threading.Lock, threading._allocate_lock, threading.RLock = _real["Lock"], _real["alloc"], _real["RLock"]
    threading.Thread, threading.get_ident, threading._time = _real["Thread"], _real["get_ident"], _real["tmono"]
    _time.time, _time.monotonic, _time.sleep = _real["time"], _real["monotonic"], _real["sleep"]
    _socket.socket = _real["socket"]

class Base:
    LIMIT = 20000
    def __init__(self):
        self.now = 0.0
        self.wall = 0           # how far the system's clock has been set away from the monotonic one, in ticks
        self.sockets, self.mux = [], None
        self.on_send = None
        self.steps = 0
        self.aborting = False
        self.jitter = None          # fn(call index) -> ticks added at that reading of the clock
        self.reads = 0
    def __enter__(self):
        global WORLD
        patch()
        WORLD = self
        return self
    def __exit__(self, *a):
        global WORLD
        WORLD = None
        unpatch()
    def tick(self):
        self.steps += 1
        if self.aborting: return
        if self.steps > self.LIMIT:
            raise SimHang("no end of computation")
    def ticks(self):
        return int(self.now // 1)
    def sent(self, sock, data, addr):
        if self.on_send: self.on_send(sock, data, addr)
    def released(self, lock): pass

class SeqWorld(Base):
    """Single application thread; `timeline` holds (tick, n, fn) run as the listener while the application sleeps."""
    def __init__(self):
        super().__init__()
        self.timeline, self.n = [], 0
        self.listening = self.blocked = False
        self.on_adv = None
    def clock(self):
        self.tick()
        if self.jitter is not None:
            self.reads += 1
            self.now += self.jitter(self.reads)
        return (BASE * TPS + self.now) / TPS
    def ident(self):
        return 2 if self.listening else 1
    def at(self, tick, fn):
        self.n += 1
        heapq.heappush(self.timeline, (tick, self.n, fn))
    def set_clock(self, g, span):
        """Somebody sets the system's clock a few times within the next `span` ticks."""
        for _ in range(g.choice((1, 1, 2, 3))):
            to = g.choice((-86400 * TPS, -3600 * TPS, -200 * TPS, -2000, -700, -300, 300, 700, 2000, 200 * TPS, 3600 * TPS))
            self.at(int(self.now) + g.randint(0, span), lambda to=to: setattr(self, "wall", self.wall + to))
    def move(self, to):
        if to > self.now:
            if self.on_adv: self.on_adv(self.now, to)
            self.now = to
    def run_next(self):
        t, _, fn = heapq.heappop(self.timeline)
        self.move(t)
        self.listening = True
        try: fn()
        finally: self.listening = False
    def acquire(self, lock, blocking, timeout):
        self.tick()
        if not lock.held:
            lock.held = True
            return True
        if self.aborting: return True
        if not blocking or timeout == 0: return False
        if self.listening: raise SimHang("the listener thread waits for a lock held by a sleeping thread")
        deadline = None if timeout is None or timeout < 0 else self.now + timeout * TPS
        while lock.held:
            if self.timeline and (deadline is None or self.timeline[0][0] <= deadline):
                self.blocked = True
                try: self.run_next()
                finally: self.blocked = False
            elif deadline is None:
                raise SimHang("waits without a deadline and nothing will ever wake it")
            else:
                self.move(deadline)
                return False
        lock.held = True
        return True
    def sleep(self, s):
        self.advance(s * TPS)
    def advance(self, dt):
        """The application does something else for dt ticks."""
        end = self.now + dt
        while self.timeline and self.timeline[0][0] <= end:
            self.run_next()
        self.move(end)

# ---------------------------------------------------------------- controlled concurrency
# modules, classes and functions that only build and read values of their own: no preemption inside them
LOCAL = {"asn1.py", "ber.py", "smi.py", "pdu.py", "typing.py"}
class T:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.go = _real["allocate"](); self.go.acquire()
        self.state, self.pred, self.deadline, self.timedout = "ready", None, None, False
        self.error = None

class ConcWorld(Base):
    LIMIT = 60000
    def __init__(self, policy):
        super().__init__()
        self.threads, self.cur, self.policy = [], None, policy
        self.mail = []
        self.points, self.jumps = 0, 0      # jumps: how often the clock moved while some thread could run
        self.running = False
        self.hang = None
        self.done = _real["allocate"](); self.done.acquire()
        self.prefix = os.path.join(common.REPO, "snmp") + os.sep
        self.where = {}
    def ident(self):
        return self.threads.index(self.cur) + 10 if self.running and self.cur in self.threads else 1
    def clock(self):
        self.tick()
        return (BASE * TPS + self.now) / TPS
    # -- scheduling
    def spawn(self, name, fn):
        self.threads.append(T(name, fn))
    def runnable(self):
        out = []
        for t in self.threads:
            if t.state == "ready": out.append(t)
            elif self.awake(t): out.append(t)
        return out
    def awake(self, t):
        return t.state == "blocked" and (t.pred() or t.deadline is not None and t.deadline <= self.now)
    def _body(self, t):
        t.go.acquire()
        try:
            if self.aborting: raise SimAbort()
            sys.settrace(self._trace)
            t.fn()
        except SimAbort: pass
        except BaseException as e:
            t.error = e
        finally:
            sys.settrace(None)
            t.state = "done"
            self._leave(t)
    def _trace(self, frame, event, arg):
        c = frame.f_code
        v = self.where.get(c)
        if v is None:
            f = c.co_filename
            v = self.where[c] = (f.startswith(self.prefix) and f[len(self.prefix):] not in LOCAL
                                 and c.co_name not in ("deserialize", "__iter__") and not c.co_qualname.startswith("subbytes"))
        return self._line if v else None
    def _line(self, frame, event, arg):
        if event == "line" and not self.aborting:
            self.point(frame)
        return self._line
    def point(self, frame=None):
        """A place where the running thread may lose the processor."""
        self.tick_c()
        self.points += 1
        me = self.cur
        act = self.policy.at(self, self.points, me)
        if act is None: return
        if act[0] in ("tick", "tickrun"):
            self.now += act[1]
            self.jumps += 1
            if act[0] == "tick": return
        t = act[-1]
        if t is not me and (t.state == "ready" or self.awake(t)):
            self._switch(me, t)
    def tick_c(self):
        self.steps += 1
        if self.steps > self.LIMIT and not self.aborting:
            self.fail("no end of computation")
    def _switch(self, me, t):
        self._wake(t)
        me.go.acquire()
        if self.aborting: raise SimAbort()
    def _wake(self, t):
        t.state, t.pred, t.deadline = "ready", None, None
        self.cur = t
        t.go.release()
    def _pick(self):
        """Next thread when the current one cannot continue; moves the clock when everyone sleeps."""
        while True:
            r = self.runnable()
            if r: return self.policy.pick(self, r)
            live = [t for t in self.threads if t.state != "done"]
            if all(getattr(t, "service", False) for t in live): return None
            timed = [t for t in live if t.state == "blocked" and t.deadline is not None]
            if not timed:
                self.hang = "deadlock: " + "; ".join(f"{t.name} blocked" for t in live if not getattr(t, "service", False))
                return None
            t = min(timed, key=lambda x: x.deadline)
            self.now = max(self.now, t.deadline)
            t.timedout = True
            return t
    def _leave(self, me):
        if self.aborting:
            self._drain(); return
        t = self._pick()
        if t is None:
            self.aborting = True
            self._drain()
        else: self._wake(t)
    def _drain(self):
        for t in self.threads:
            if t.state != "done":
                t.state = "ready"; self.cur = t
                t.go.release()
                return
        self.done.release()
    def fail(self, why):
        self.hang = why
        self.aborting = True
        raise SimAbort()
    def block(self, pred, deadline):
        """-> True when pred holds, False when the deadline came first."""
        me = self.cur
        while not pred():
            if self.aborting: raise SimAbort()
            if deadline is not None and self.now >= deadline: return False
            self.tick_c()
            me.state, me.pred, me.deadline, me.timedout = "blocked", pred, deadline, False
            t = self._pick()
            if t is None:
                self.aborting = True
                me.state = "ready"
                raise SimAbort()
            if t is me:
                me.state, me.pred, me.deadline = "ready", None, None
            else:
                self._switch(me, t)
        return True
    def acquire(self, lock, blocking, timeout):
        if not self.running:
            if lock.held:
                if not blocking or timeout == 0: return False
                raise SimHang("lock held during setup")
            lock.held = True
            return True
        if self.aborting:
            if self.hang is None: pass
            lock.held = True
            return True
        if not lock.held:
            lock.held = True
            return True
        if not blocking or timeout == 0: return False
        deadline = None if timeout is None or timeout < 0 else self.now + timeout * TPS
        if not self.block(lambda: not lock.held, deadline): return False
        lock.held = True
        return True
    def sleep(self, s):
        if self.running: self.block(lambda: False, self.now + s * TPS)
        else: self.now += s * TPS
    def run(self):
        """Run the spawned threads to completion. Threads marked `service` end when all others have."""
        self.running = True
        reals = []
        for t in self.threads:
            th = _thread.start_new_thread(self._body, (t,))
        first = self.policy.pick(self, self.runnable())
        self._wake(first)
        self.done.acquire()
        self.running = False
        self.aborting = False
    def listener_loop(self):
        me = self.cur
        while True:
            self.block(lambda: bool(self.mail), None)
            fn = self.mail.pop(0)
            fn()

class Policy:
    """Run-to-block with scripted preemptions: {point: ("run", thread name) | ("tick", ticks)}; order = preference."""
    def __init__(self, script=None, order=None):
        self.script, self.order = script or {}, order
    def at(self, w, k, me):
        a = self.script.get(k)
        if a is None: return None
        if a[0] == "tick": return a
        for t in w.threads:
            if t.name == a[-1]: return a[:-1] + (t,)
        return None
    def pick(self, w, r):
        if self.order:
            for n in self.order:
                for t in r:
                    if t.name == n: return t
        return r[0]

class RandomPolicy:
    """Random priorities with d change points (PCT), plus occasional clock ticks."""
    def __init__(self, seed, d=3, length=3000, ticks=()):
        self.r = random.Random(seed)
        self.prio, self.change = {}, {self.r.randrange(1, length) for _ in range(d)}
        self.low = 0
        self.ticks = {self.r.randrange(1, length): x for x in ticks}
    def p(self, t):
        if t.name not in self.prio: self.prio[t.name] = self.r.random() + 1
        return self.prio[t.name]
    def at(self, w, k, me):
        if k in self.ticks: return ("tick", self.ticks[k])
        if k in self.change:
            self.low -= 1
            self.prio[me.name] = self.low
        best = max(w.runnable() or [me], key=self.p)
        return ("run", best) if best is not me else None
    def pick(self, w, r):
        return max(r, key=self.p)

def schedules(rng, names, pts, budget):
    """Policies for a program of `pts` points: single preemptions and clock steps, pairs close together, random priorities."""
    out = [Policy(), Policy(order=names[::-1])]
    one = [(k, ("run", n)) for k in range(1, pts + 1) for n in names] + [(k, ("tick", 256)) for k in range(1, pts + 1)] \
        + [(k, ("tickrun", t, n)) for k in range(1, pts + 1) for n in names for t in (256, 1024)]
    rng.shuffle(one)
    out += [Policy({k: a}) for k, a in one[:budget]]
    for i in range(budget):
        s, k = {}, rng.randint(1, pts)
        for _ in range(rng.choice([2, 2, 3])):
            n = rng.choice(names) if rng.random() < 0.5 else "listener"
            s[k] = rng.choice([("run", n), ("run", n), ("tickrun", rng.choice([256, 512, 1024]), n)])
            k += rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 200)])
        out.append(Policy(s))
    out += [RandomPolicy(rng.random(), d=4, length=max(20, pts), ticks=(256,) if i % 2 else ()) for i in range(budget // 2)]
    return out
