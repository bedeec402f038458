from common import *
RULE = ("Publishers on several worker threads send numbered messages on several topics at every QoS, pipelined in bursts; subscribers stay online, disconnect and resume at random with random "
        "acknowledgement, or resume exactly while bursts are routed (with delays put into the resume path). For each subscription and connection the numbers of one (publisher, topic, QoS) must "
        "increase strictly, and first receipts over all connections must be in publishing order. Evaluation = one delivery checked against its predecessor; distinct by "
        "(subscriber kind, publisher, topic, QoS, previous and this number parity, connection number).")

def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    out = [("online-%d" % i, "online", {"k": i}) for i in range(10 * n)]
    out += [("resume-%d" % i, "resume", {"k": i, "rounds": 12 if tier == "quick" else 40}) for i in range(14 * n)]
    out += [("race-%d" % i, "race", {"k": i, "rounds": 25 if tier == "quick" else 100}) for i in range(12 * n)]
    return out

class Mon:
    """Order monitor of one session (all its connections)."""
    def __init__(self, ctx, name): self.ctx = ctx; self.name = name; self.first = {}; self.seen = set(); self.ncon = 0; self.n = 0
    def newcon(self):
        """The monitor function of a new connection."""
        self.ncon += 1; con = {}; me = self.ncon
        return lambda p: self.check(p, con, me != self.ncon)
    def check(self, p, con, stale):
        f = bytes(p.payload).split(b"|")
        pub, num, q = f[0].decode(), int(f[1]), int(f[2])
        k = (pub, p.topic, q, p.prop("sub_id"))
        last = con.get(k, -1)
        if num <= last: raise Violation("%s: message %d of %s after message %d on the same connection" % (self.name, num, k, last))
        con[k] = num
        if (k, num) not in self.seen:
            self.seen.add((k, num))
            if stale: self.first[k] = max(num, self.first.get(k, -1)); return    # read late from a connection that was taken over
            if num < self.first.get(k, -1): raise Violation("%s: message %d of %s first received after message %d" % (self.name, num, k, self.first[k]))
            self.first[k] = num
        self.n += 1
        self.ctx.eval((self.name[:2], k, num % 7, last % 7, self.ncon)); self.ctx.count("deliveries_q%d" % p.qos)
        if p.dup: self.ctx.count("redeliveries_flagged")

class Pub:
    def __init__(self, w, b, name, ver): self.c = Client(w, b, name, ver).connect(); self.n = 0; self.sent = []
    def burst(self, r, n, topics, qos=(0, 1, 2), size=(0, 40)):
        for _ in range(n):
            t = r.choice(topics); q = r.choice(qos)
            self.c.pub(t, ("%s|%d|%d|" % (self.c.cid, self.n, q)).encode() + b"x" * r.randint(*size), qos=q, wait=False)
            self.sent.append((t, self.n, q)); self.n += 1

def setup(ctx, npub):
    r = ctx.rng
    b = ctx.broker(threads=r.choice([2, 3, 4]), conf=BIGQ, noise=r.choice([0, 200, 1000])); w = ctx.world(b)
    return r, b, w, [Pub(w, b, "p%d" % i, r.choice([3, 4, 5])) for i in range(npub)]

def online(ctx, k):
    r, b, w, pubs = setup(ctx, 5)
    mons = []; subs = []
    for i in range(6):
        c = Client(w, b, "s%d" % i, [3, 4, 5][i % 3]); m = Mon(ctx, "online%d" % i); c.on_publish = m.newcon(); mons.append(m)
        c.connect(clean=i % 2 == 0, pr={"session_expiry": 1000 if i % 2 else 0, "topic_alias_max": r.choice([0, 2, 10])}); subs.append(c)
        if c.ver == 5: c.sub(("o/#", 2), pr={"sub_id": 1}); c.sub(("o/+", i % 3), pr={"sub_id": 2})
        else: c.sub((r.choice(["o/#", "+/+"]), 2 - i % 2))
    topics = ["o/%d" % i for i in range(4)]
    for rd in range(6):
        if r.random() < 0.3: b.slow(r"Session::writePacket|Client::writeMqttPacket\(|queuePacketAtSubscribers", 300, 4)
        for _ in range(4):
            for p in r.sample(pubs, len(pubs)): p.burst(r, r.choice([5, 30, 60]), topics)
        b.slow("")
        w.barrier([p.c for p in pubs], subs)
    for s in subs:
        want = sum(len(p.sent) for p in pubs) * (2 if s.ver == 5 else 1)
        if len(s.pubs) != want: raise Violation("subscriber %s got %d of %d messages" % (s.name, len(s.pubs), want))

def resume(ctx, k, rounds):
    r, b, w, pubs = setup(ctx, 3)
    S = []
    for i in range(4):
        S.append({"id": "s%d" % i, "ver": [4, 5, 5, 3][i], "mon": Mon(ctx, "resume%d" % i), "c": None})
    topics = ["t/%d" % i for i in range(3)]
    def con(s, first=False):
        c = Client(w, b, s["id"], s["ver"]); c.ack = False; c.on_publish = s["mon"].newcon(); s["c"] = c
        c.connect(clean=False, pr={"session_expiry": 100000}, wait=not first and r.random() < 0.5)
        if first: w.until(lambda: c.connack, 20, "CONNACK"); c.sub(("t/#", 2))
    for s in S: con(s, True)
    for rd in range(rounds):
        for _ in range(3):
            for p in pubs: p.burst(r, r.choice([1, 10, 30]), topics, qos=r.choice([(1,), (2,), (1, 2), (0, 1, 2)]))
            w.pump(0)
            for s in S:
                c = s["c"]
                if c.open and c.connected:
                    # acknowledge some, in order or not
                    u = list(c.unacked.items())
                    if u and r.random() < 0.7:
                        for pid, q in (u[:r.randint(0, len(u))] if r.random() < 0.5 else r.sample(u, r.randint(0, len(u)))):
                            c.do_ack(PUBACK if q == 1 else PUBREC, pid)
                            if q == 2 and r.random() < 0.6: c.do_ack(PUBCOMP, pid)
                if r.random() < 0.3:
                    w.until(lambda: c.connack, 20, "CONNACK")       # its CONNECT could otherwise be handled after the next one's
                    if c.open: c.drop(rst=r.random() < 0.3)
                    if r.random() < 0.6: con(s)
                elif not c.open: con(s)
        w.barrier([p.c for p in pubs])
    for s in S:
        if not s["c"].open: con(s)
    w.barrier([s["c"] for s in S], [s["c"] for s in S])
    ctx.sample({s["id"]: "%d deliveries on %d connections" % (s["mon"].n, s["mon"].ncon) for s in S})

def race(ctx, k, rounds):
    """Sessions are resumed (also by take-over) while bursts for them are being routed."""
    r, b, w, pubs = setup(ctx, 4)
    mon = Mon(ctx, "race"); ver = r.choice([3, 4, 5, 5])
    s = Client(w, b, "s", ver).connect(clean=False, pr={"session_expiry": 1000}); s.sub(("t/#", 2)); s.on_publish = mon.newcon()
    topics = ["t/0", "t/1"]
    hits = b.slow(r"Session::sendAllPendingQosData|Client::sendConnackSuccess|Session::assignActiveConnection\(std::shared_ptr<Client>|Client::writeMqttPacket\(", r.choice([500, 2000]), r.choice([1, 3]))
    if not hits: raise Exception("no functions to delay")
    for rd in range(rounds):
        if r.random() < 0.7: s.drop()
        q = r.choice([(1,), (2,), (1, 2)])
        for p in pubs: p.burst(r, 10, topics, q)
        if r.random() < 0.5: w.settle(r.random() * 0.01)
        old = s
        s = Client(w, b, "s", ver); s.on_publish = mon.newcon()
        s.connect(clean=False, pr={"session_expiry": 1000}, wait=False)
        for p in pubs: p.burst(r, 10, topics, q)
        w.until(lambda: s.connack, 30, "CONNACK")
        w.barrier([p.c for p in pubs], [s])
        ctx.count("resumes_during_bursts")
    b.slow("")
    total = {(p.c.cid, t, q, n) for p in pubs for t, n, q in p.sent}
    got = {(k[0], k[1], k[2], n) for k, n in mon.seen}
    if total - got: raise Violation("%d of %d messages never arrived, e.g. %s" % (len(total - got), len(total), sorted(total - got)[:4]))
