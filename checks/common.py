import random, time, struct, os, sys
from lib.mqtt import *
from lib.broker import Broker, free_port
from lib.check import Ctx

def match(filt, topic):
    """MQTT topic matching, straight from the specification."""
    f, t = filt.split("/"), topic.split("/")
    if topic.startswith("$") != filt.startswith("$") and filt[:1] in "+#": return False
    for i, x in enumerate(f):
        if x == "#": return True
        if i >= len(t): return False
        if x != "+" and x != t[i]: return False
    return len(f) == len(t)

def share(filt):
    """-> (group or None, filter)"""
    if filt.startswith("$share/"):
        _, g, f = filt.split("/", 2); return g, f
    return None, filt

LEVELS = ["a", "b", "c", "", "ab", "é", "日本", "x y", "A"]
def rtopic(r, maxlev=5, levels=LEVELS):
    while True:
        t = "/".join(r.choice(levels) for _ in range(r.randint(1, maxlev)))
        if t: return t
def rfilter(r, maxlev=5, levels=LEVELS):
    while True:
        n = r.randint(1, maxlev); p = []
        for i in range(n):
            k = r.random()
            if k < 0.28: p.append("+")
            elif k < 0.45 and i == n - 1: p.append("#")
            else: p.append(r.choice(levels))
        f = "/".join(p)
        if f: return f

# queue limits out of the way (they are property P18's concern)
BIGQ = {"max_qos_msg_pending_per_client": 65535, "max_qos_bytes_pending_per_client": 200000000, "client_max_write_buffer_size": 50000000}

class Uniq:
    """Unique payloads."""
    def __init__(self, tag=""): self.n = 0; self.tag = tag
    def __call__(self, extra=b""):
        self.n += 1
        return ("%s%d;" % (self.tag, self.n)).encode() + extra

def diff(exp, got):
    """Multiset difference of two lists, as text or None."""
    from collections import Counter
    e, g = Counter(exp), Counter(got)
    miss, extra = list((e - g).elements()), list((g - e).elements())
    if miss or extra: return "missing %s, unexpected %s" % (miss[:6], extra[:6])
    return None

def retry_connect(fn, n=50):
    for i in range(n):
        try: return fn()
        except (OSError, Violation):
            if i == n - 1: raise
            time.sleep(0.05)

class Receiver:
    """Receiving side of a session with correct MQTT state over any number of connections. policy(point, pkt) returns an action:
    'ack', 'skip' (do not acknowledge now), 'cut' (break the connection here), 'ackcut' (acknowledge, then break it)."""
    def __init__(self, name, policy=None):
        self.name = name; self.app = []; self.q2 = {}; self.policy = policy; self.c = None; self.acked1 = set(); self.sure1 = set(); self.compd = {}; self.dead = set()
        self.pubs = 0; self.dups = 0; self.rels = 0; self.twice = ()
    def attach(self, c):
        self.c = c; c.ack = False; c.on_packet = lambda p: self.c is c and self.packet(p); self.acked1 = set(); self.compd = {}
        return c
    def sync(self, w):
        """What was acknowledged until now has been processed by the broker when the ping comes back."""
        c, a, k = self.c, set(self.acked1), dict(self.compd)
        if not c.open: return
        w.barrier([c])
        if c.open and self.c is c:
            self.sure1 |= a
            self.dead |= {x for x in k if self.compd.pop(x, None)}
    def act(self, point, p, send):
        a = self.policy(point, p) if self.policy else "ack"
        if a in ("ack", "ackcut"): send()
        if a in ("cut", "ackcut"): self.c.drop()
        return a
    def packet(self, p):
        if p.type == PUBLISH:
            self.pubs += 1; pay = bytes(p.payload)
            if p.qos == 0: self.app.append(pay); return
            self.dead.discard(p.pid); self.compd.pop(p.pid, None)
            if p.qos == 1:
                if pay in self.sure1 and pay not in self.twice: raise Violation("%s: QoS 1 message %r delivered again after its PUBACK was processed" % (self.name, pay[:40]))
                self.app.append(pay)
                if self.act("pub1", p, lambda: self.c.do_ack(PUBACK, p.pid)) in ("ack", "ackcut"): self.acked1.add(pay)
            else:
                if p.pid in self.q2:
                    if self.q2[p.pid] != pay: raise Violation("%s: packet id %d reused for %r while the exchange of %r is unfinished" % (self.name, p.pid, pay[:40], self.q2[p.pid][:40]))
                    self.dups += 1
                else: self.app.append(pay); self.q2[p.pid] = pay
                self.act("pub2", p, lambda: self.c.do_ack(PUBREC, p.pid))
        elif p.type == PUBREL:
            self.rels += 1
            if p.pid in self.dead: raise Violation("%s: PUBREL %d again after its PUBCOMP was processed" % (self.name, p.pid))
            self.q2.pop(p.pid, None)
            if self.act("rel", p, lambda: self.c.do_ack(PUBCOMP, p.pid)) in ("ack", "ackcut"): self.compd[p.pid] = 1
    def judge(self, sent, what=""):
        """sent: {payload: delivered QoS}. Exactly once for QoS 2, at least once for QoS 1."""
        from collections import Counter
        n = Counter(self.app)
        for pay, q in sent.items():
            if n[pay] == 0: raise Violation("%s%s: acknowledged QoS %d message %r was never delivered" % (what, self.name, q, pay[:40]))
            if q == 2 and n[pay] > 1: raise Violation("%s%s: QoS 2 message %r was delivered %d times" % (what, self.name, pay[:40], n[pay]))
        for pay in n:
            if pay not in sent: raise Violation("%s%s: message %r appeared from nowhere" % (what, self.name, pay[:40]))

def tick(w, b, threads):
    """Returns when every worker has run what the main loop's timers queued after an advance of the clock (and whatever was queued before)."""
    cs = [Client(w, b, "tick%d" % i, 4, name="tick%d" % i) for i in range(1)]
    cs[0].connect()
    for i in range(threads):
        c = Client(w, b, "tick%d" % (i + 1), 4); c.connect(); cs.append(c)
    w.barrier(cs); w.barrier(cs); w.barrier(cs)
    n = b.fds()
    for c in cs: c.disconnect()
    w.until(lambda: b.fds() <= n - len(cs), 30, "tick connections to be removed")

def elapse(w, b, seconds, threads, step=9.0):
    """Let simulated time pass with the periodic work done on the way."""
    while seconds > 0:
        s = min(step, seconds); seconds -= s; b.advance(s); tick(w, b, threads)

def drop_and_wait(w, b, c, threads, how="drop"):
    """End a connection and wait until the broker has dealt with it."""
    n = b.fds()
    if how == "drop": c.drop()
    elif how == "rst": c.drop(rst=True)
    else: how(c)
    w.until(lambda: b.fds() < n, 30, "the broker to notice the end of a connection")
    tick(w, b, threads)
