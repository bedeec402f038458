from common import *
from p19 import rprops, norm
from lib import certs
import p14, json, os, select, signal, socket, threading, time
from collections import Counter
RULE = ("Two or three brokers joined by bridges of random configuration (versions, bridge bit, filters that overlap in both directions, QoS, prefixes, aliases, several connections, TLS, users, ACL) through a link that is cut at random bytes, refused, or resolved slowly; "
        "random messages (QoS, retain, properties) on all sides. Observers on each side compare everything that arrives with what the filters, prefixes and options say: each message once, on the right topic, with QoS, retain flag and properties, nothing else, no loops; with durable sessions nothing is lost over cuts and restarts. Evaluation = one message judged on one side; distinct by configuration, direction, QoS, retain.")
BUDGET = {"quick": 480}
JOBS = 7; NEVER = 0xFFFFFFFF
ASSUMPTIONS = ["Topics that don't match a configured prefix are not judged: the documentation and the code differ on whether the other prefix is added.", "At QoS 0, and without durable sessions on both ends, messages may be lost while the link is down."]

def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    return [("relay-%d" % i, "relay", {"k": i}) for i in range(22 * n)] + [("cuts-%d" % i, "cuts", {"k": i}) for i in range(14 * n)] + [("reload-%d" % i, "reload", {"k": i}) for i in range(6 * n)] + [("auth-%d" % i, "auth", {"k": i}) for i in range(3 * n)] + [("hub-%d" % i, "hub", {"k": i}) for i in range(4 * n)]

class Link:
    """A TCP forwarder that can cut, refuse and limit."""
    def __init__(self, port):
        self.to = port; self.l = socket.socket(); self.l.bind(("127.0.0.1", 0)); self.l.listen(50); self.port = self.l.getsockname()[1]; self.pairs = []; self.refuse = False; self.stopped = False; self.budget = None; self.cuts = 0; self.bytes = [0, 0]; self.lock = threading.Lock(); self.conns = 0
        threading.Thread(target=self.loop, daemon=True).start()
    def loop(self):
        while not self.stopped:
            with self.lock: m = {x: (p, i) for p in self.pairs for i, x in enumerate(p)}
            try: rd, _, _ = select.select([self.l] + list(m), [], [], 0.02)
            except (OSError, ValueError): continue
            for s in rd:
                if s is self.l:
                    try: a, _ = self.l.accept()
                    except OSError: continue
                    if self.refuse: self.rst(a); a.close(); continue
                    c = socket.socket()
                    try: c.connect(("127.0.0.1", self.to))
                    except OSError: self.rst(a); a.close(); continue
                    for x in (a, c): x.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                    self.conns += 1
                    with self.lock: self.pairs.append((a, c))
                    continue
                p, i = m[s]
                try: d = s.recv(65536)
                except OSError: d = b""
                if not d: self.drop(p); continue
                n = len(d)
                if self.budget is not None and n >= self.budget: d = d[:self.budget]; n = -1
                try: p[1 - i].sendall(d)
                except OSError: self.drop(p); continue
                self.bytes[i] += len(d)
                if n < 0: self.budget = None; self.cuts += 1; self.cut(); break
                if self.budget is not None: self.budget -= n
    @staticmethod
    def rst(s): s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
    def drop(self, p, rst=False):
        with self.lock:
            if p in self.pairs: self.pairs.remove(p)
        for x in p:
            try:
                if rst: self.rst(x)
                x.close()
            except OSError: pass
    def cut(self, rst=False):
        for p in list(self.pairs): self.drop(p, rst)
    def close(self): self.stopped = True; self.l.close(); self.cut()

ROOTS = ["out", "in", "both", "o2", "i2", "none"]
class Conf:
    """One bridge's configuration and what it means."""
    def __init__(self, r, prefixes=True, share=True, durable=False, name="br"):
        self.name = name; self.ver = r.choice(["mqtt3.1", "mqtt3.1.1", "mqtt5", "mqtt5"]); self.bit = r.choice([True, True, False]); v5 = self.ver == "mqtt5"
        self.L, self.R = r.choice([("", ""), ("", ""), ("loc/al/", "re/"), ("loc/", ""), ("", "re/mo/te/")]) if prefixes else ("", "")
        self.loopsafe = v5 or self.bit
        pat = lambda x: r.choice([x + "/#", x + "/#", x + "/+", x + "/a"])
        self.pub = {pat("out"): r.randint(0, 2)}; self.subs = {pat("in"): r.randint(0, 2)}
        if self.loopsafe: p = pat("both"); self.pub[p] = r.randint(0, 2); self.subs[p if r.random() < 0.5 else pat("both")] = r.randint(0, 2)
        if r.random() < 0.5: self.pub["o2/+/x"] = r.randint(0, 2)
        if r.random() < 0.5: self.subs["i2/+/x"] = r.randint(0, 2)
        if r.random() < 0.2 and not self.L and not self.R and self.loopsafe: self.pub = {"#": r.randint(0, 2)}; self.subs = {"#": r.randint(0, 2)}
        self.count = r.choice([1, 1, 1, 2, 3]) if v5 and share else 1
        self.retain = r.random() < 0.85; self.durable = durable; self.opts = {}
        if r.random() < 0.4: self.opts["max_outgoing_topic_aliases"] = r.choice([1, 3, 100])
        if r.random() < 0.4: self.opts["max_incoming_topic_aliases"] = r.choice([1, 3, 100])
        if r.random() < 0.3: self.opts["tcp_nodelay"] = "true"
        if durable: self.opts.update(local_clean_start="false", remote_clean_start="false", local_session_expiry_interval=1000000, remote_session_expiry_interval=1000000)
    def text(self, port, extra=None):
        o = dict(clientid_prefix=self.name, address="127.0.0.1", inet_protocol="ip4", port=port, protocol_version=self.ver, bridge_protocol_bit="true" if self.bit else "false", remote_retain_available="true" if self.retain else "false", keepalive=6000)
        if self.L: o["local_prefix"] = self.L
        if self.R: o["remote_prefix"] = self.R
        if self.count > 1: o["connection_count"] = self.count
        o.update(self.opts); o.update(extra or {})
        return "\nbridge {\n%s%s%s}\n" % ("".join("  %s %s\n" % x for x in o.items()), "".join("  publish %s%s %d\n" % (self.L, f, q) for f, q in self.pub.items()), "".join("  subscribe %s%s %d\n" % (self.R, f, q) for f, q in self.subs.items()))
    def describe(self): return "%s bit=%s L=%r R=%r pub=%s sub=%s x%d retain=%s durable=%s %s" % (self.ver, self.bit, self.L, self.R, self.pub, self.subs, self.count, self.retain, self.durable, self.opts)
    def crosses(self, side, m):
        """What a message published on side 0 (local) or 1 becomes on the other one, or None. At most one filter matches."""
        t = m["topic"]; pre = (self.L, self.R)[side]; fs = (self.pub, self.subs)[side]
        if not t.startswith(pre): return None
        hit = [q for f, q in fs.items() if match(f, t[len(pre):])]
        if not hit: return None
        x = dict(m); x["topic"] = (self.R, self.L)[side] + t[len(pre):]; x["qos"] = min(m["qos"], max(hit)); x["pid"] = None
        if self.ver != "mqtt5": x["props"] = ()
        if side == 0 and not self.retain: x["retain"] = False
        if side == 1 and self.ver != "mqtt5" and not self.bit: x["retain"] = False
        return x
    def topic(self, r, side):
        root = r.choice(ROOTS); rest = r.choice(["/a", "/b", "/a/x", "/b/x", "/a/x/y", "/é", "/", ""])
        return (self.L, self.R)[side] + root + rest

class Obs:
    """Sees everything on one broker."""
    def __init__(self, ctx, b, name="obs"):
        self.b = b; self.w = ctx.world(b); self.name = name; self.seen = []; self.ignore = (); self.open()
    def open(self):
        c = self.c = Client(self.w, self.b, self.name, 5, name=self.name); c.connect(pr=[("receive_max", 65535)]); old = c._publish
        def pub(p): old(p); c.pubs.clear(); ((p.payload and bytes(p.payload) not in self.ignore and self.seen.append(p)) if not bytes(p.payload).startswith(b"probe") and not p.topic.startswith("$") else self.probes.add(bytes(p.payload)))
        self.probes = set(); c._publish = pub; c.send(subscribe(5, c.pid(), [("#", 2 | 8 | 2 << 4)])); self.w.barrier([c])     # retain as published, no retained messages
        self.p = {}
    def pubr(self, ver, i=0):
        if (ver, i) not in self.p: c = Client(self.w, self.b, "%s-p%d-%d" % (self.name, ver, i), ver); c.connect(pr=[("topic_alias_max", 5)] if ver == 5 else None); self.p[(ver, i)] = c
        return self.p[(ver, i)]

def publish_one(o, m, wait=False):
    c = o.pubr(m["ver"], m["who"])
    c.send(publish(m["ver"], m["topic"], m["payload"], m["qos"], m["retain"], c.pid() if m["qos"] else None, pr=list(m["pr"]) if m["ver"] == 5 else None))

def message(r, u, cf, side, retain=True):
    ver = r.choice([4, 5, 5]); pr = rprops(r) if ver == 5 else []
    return dict(topic=cf.topic(r, side), payload=u(b"z" * r.choice([0, 3, 500, 9000])), qos=r.randint(0, 2), retain=retain and r.random() < 0.3, ver=ver, who=r.randint(0, 2), pr=pr, props=norm(pr, ver))

def step_clock(O, n=1, s=1.1):
    for _ in range(n):
        O[0].b.advance(s)
        for o in O: tick(o.w, o.b, o.b.threads)
        time.sleep(0.01)

def bring_up(O, cf, what, limit=120, u=[0]):
    """Until probes come through in both directions."""
    need = cf.count
    for i in range(limit):
        u[0] += 1; okd = [False, False]
        for side in (0, 1):
            fs = (cf.pub, cf.subs)[side]; f = sorted(fs)[0]; t = (cf.L, cf.R)[side] + f.replace("#", "pr").replace("+", "pr")
            for j in range(1 if need == 1 else 12):    # the shares of several connections
                c = Client(O[side].w, O[side].b, "probe%d" % j, 4) if need > 1 else O[side].pubr(4, 9)
                if need > 1: c.connect()
                c.send(publish(4, t, "probe%d.%d.%d" % (u[0], side, j), 0))
                O[side].w.barrier([c])
                if need > 1: c.disconnect()
        for _ in range(8):
            for o in O: o.w.barrier([o.c]); o.w.pump(0.002)
            for side in (0, 1): okd[side] = len([x for x in O[1 - side].probes if x.startswith(b"probe%d.%d." % (u[0], side))]) == (1 if need == 1 else 12)
            if all(okd): break
        if all(okd) and (need == 1 or O[0].b.log().count("connection established. Subscribing") >= need): return i
        step_clock(O, 1, 1.1 if i % 4 else 5.1)
    raise Violation("%s: the bridge does not relay after %d s: %s; %s" % (what, limit * 2, okd, cf.describe()))

def norm_got(p): return (p.topic, bytes(p.payload), p.qos, bool(p.retain), norm(p.props))
def key(m): return (m["topic"], m["payload"], m["qos"], bool(m["retain"]), m["props"])

def settle(O, cond, what, clock=True, limit=60):
    """Until what is expected is there, then a while longer for what is not."""
    end = time.monotonic() + limit; n = 0
    while not cond():
        n += 1
        for o in O: o.w.barrier([o.c]); o.w.pump(0.002)
        if clock and n % 20 == 0: step_clock(O, 1, 0.1)
        if time.monotonic() > end: return False
    for _ in range(3):
        for o in O: o.w.barrier([o.c] + list(o.p.values())); o.w.pump(0.004)
    return True

def judge(ctx, cf, O, exp, what, k):
    """exp[side]: everything expected there."""
    want = [Counter(key(m) for m in e) for e in exp]
    ok = settle(O, lambda: all(len(o.seen) >= sum(x.values()) for o, x in zip(O, want)), what, limit=20)
    for side in range(len(O)):
        got = Counter(norm_got(p) for p in O[side].seen)
        for m in exp[side]: ctx.eval((cf.describe(), side, m["qos"], m["retain"], k))
        miss = want[side] - got; extra = got - want[side]
        if miss or extra: raise Violation("%s: side %d: missing %s, unexpected %s; %s" % (what, side, [x[:1] + (x[1][:20],) + x[2:] for x in list(miss)[:3]], [x[:1] + (x[1][:20],) + x[2:] for x in list(extra)[:3]], cf.describe()))
        ctx.count("judged_on_side_%d" % side, sum(want[side].values())); O[side].seen.clear()

def exchange(ctx, cf, O, u, n, what, k, retained=None):
    r = ctx.rng; exp = [[], []]
    for i in range(n):
        side = r.randint(0, 1); m = message(r, u, cf, side, retain=cf.retain or side == 0); publish_one(O[side], m); exp[side].append(m); x = cf.crosses(side, m)
        if x: exp[1 - side].append(x); ctx.count("crossed_%s" % ("out" if side == 0 else "in"))
        if retained is not None and m["retain"]: retained[side][m["topic"]] = m["payload"]
        if retained is not None and x and x["retain"]: retained[1 - side][x["topic"]] = x["payload"]
        if r.random() < 0.1 or m["retain"]:     # retained: the last one of both sides must be known
            settle(O, lambda: all(len(o.seen) >= len(e) for o, e in zip(O, exp)), what, limit=20)
    judge(ctx, cf, O, exp, what, k)

def look_retained(ctx, O, retained, what, k, cf):
    for side, o in enumerate(O):
        for _ in range(3):
            c = Client(o.w, o.b, "look", 4); c.connect(); c.sub("#"); o.w.barrier([c]); o.w.settle(0.005); o.w.barrier([c]); have = {p.topic: bytes(p.payload) for p in c.pubs if p.retain}; c.disconnect()
            if have == retained[side]: break
            time.sleep(0.05)
        if have != retained[side]: raise Violation("%s: retained messages on side %d: missing %s, unexpected %s; %s" % (what, side, {t: v[:20] for t, v in retained[side].items() if have.get(t) != v}, {t: v[:20] for t, v in have.items() if retained[side].get(t) != v}, cf.describe()))
        ctx.eval(("retained", side, cf.describe(), k), max(1, len(have))) if False else ctx.eval(("retained", side, cf.describe(), k)); ctx.count("retained_compared", len(have))

def brokers(ctx, cf, extra=None, **kw):
    r = ctx.rng; AL = dict(max_incoming_topic_alias_value=50, max_outgoing_topic_alias_value=50, expire_sessions_after_seconds=0)
    B = ctx.broker(threads=r.choice([1, 2, 3]), conf=dict(BIGQ, **AL), name="remote", **kw); L = Link(B.port); ctx.links = getattr(ctx, "links", []) + [L]
    A = ctx.broker(threads=r.choice([1, 2, 3]), conf=dict(BIGQ, **AL), extra=cf.text(L.port, extra), start=False, **kw); return A, B, L

def relay(ctx, k):
    r = ctx.rng; cf = Conf(r); u = Uniq(); ctx.step(cf.describe()); A, B, L = brokers(ctx, cf)
    retained = [{}, {}]; OB = Obs(ctx, B, "obsB"); seed_exp = []
    # what the remote side has before the bridge comes
    if cf.count == 1:
        for i in range(r.choice([0, 3, 40])):
            m = message(r, u, cf, 1); m["retain"] = True
            if m["topic"] in retained[1] or not cf.retain: continue
            publish_one(OB, m); retained[1][m["topic"]] = m["payload"]; x = cf.crosses(1, m)
            # A retained message sent because of a subscription has the flag set with every version
            if x: retained[0][x["topic"]] = x["payload"]; x["retain"] = True; seed_exp.append(x)
    OB.w.barrier(list(OB.p.values()) + [OB.c]); OB.w.barrier([OB.c]); OB.seen.clear()
    A.start(); OA = Obs(ctx, A, "obsA"); O = [OA, OB]; bring_up(O, cf, "start")
    got = {}
    settle(O, lambda: all(x["payload"] in {bytes(p.payload) for p in OA.seen} for x in seed_exp) or True, "seed")
    for s in O: s.seen.clear()       # depending on when the observer came
    look_retained(ctx, O, retained, "retained messages of the remote side", k, cf)
    for ph in range(3): exchange(ctx, cf, O, u, r.choice([10, 60, 150]), "exchange %d" % ph, k, retained); look_retained(ctx, O, retained, "after exchange %d" % ph, k, cf)
    if cf.ver == "mqtt5" or cf.bit or not any(match(f, g) for f in cf.pub for g in cf.subs): pass
    L.close(); A.stop(); B.stop()

def cuts(ctx, k):
    """Durable bridges over a link that breaks; restarts."""
    r = ctx.rng; durable = r.random() < 0.75; cf = Conf(r, durable=durable, share=r.random() < 0.3); cf.retain = True; u = Uniq()
    if durable and cf.count > 1: cf.count = 1
    extra = {}; kw = {}
    if durable and r.random() < 0.5: extra["use_saved_clientid"] = "true"; kw["storage"] = True
    ctx.step(cf.describe(), extra); A, B, L = brokers(ctx, cf, extra, **kw); OB = Obs(ctx, B, "obsB"); A.start(); OA = Obs(ctx, A, "obsA"); O = [OA, OB]; bring_up(O, cf, "start")
    sent = [[], []]; exp = [[], []]; restarts = 0; order = []
    def pub(n):
        for _ in range(n):
            side = r.randint(0, 1); m = message(r, u, cf, side, retain=False); publish_one(O[side], m); sent[side].append(m); x = cf.crosses(side, m)
            if x: exp[1 - side].append(x)
    total = 0
    for ph in range(r.choice([4, 8])):
        pub(r.choice([3, 20, 60])); mode = r.choice(["cut", "rst", "bytes", "bytes", "down", "restartA", "restartB"] if kw else ["cut", "rst", "bytes", "bytes", "down"]); ctx.step(mode)
        if mode == "bytes":
            L.budget = r.randint(1, 20000); pub(r.choice([20, 60]))
            for o in O: o.w.barrier(list(o.p.values()) + [o.c])
            time.sleep(0.03)
            if L.budget is not None: L.budget = None
        elif mode in ("cut", "rst"):
            if r.random() < 0.5: time.sleep(r.choice([0.001, 0.01]))
            L.cut(mode == "rst")
        elif mode == "down":
            L.refuse = True; L.cut(); pub(r.choice([0, 30]))
            for _ in range(3): step_clock(O, 1, 5.1)
            pub(r.choice([0, 30])); L.refuse = False
        else:
            for o in O: o.w.barrier(list(o.p.values()) + [o.c]); o.w.barrier([o.c])
            x = O[mode == "restartB"]; x.w.barrier([x.c]); x.c.disconnect()
            for c in x.p.values(): c.disconnect()
            x.b.restart(); x.w = ctx.world(x.b); x.open(); restarts += 1
            # what the bridge delivers before this observer is back would be missed: it's judged on the other side only
            total += 1
            x.lost = True
        ctx.count("link_" + mode)
        bring_up(O, cf, "after " + mode, limit=250)
    pub(20)
    # everything that must come, has come
    def have(): return [Counter(bytes(p.payload) for p in o.seen) for o in O]
    def missing():
        h = have(); return [[m for m in e if m["qos"] > 0 and not h[s][m["payload"]]] for s, e in enumerate(exp)]
    strict = [durable and not getattr(o, "lost", False) for o in O]
    settle(O, lambda: not any(x and strict[s] for s, x in enumerate(missing())), "x", limit=15)
    h = have(); miss = missing(); own = [{m["payload"] for m in s} for s in sent]
    for side in (0, 1):
        for m in sent[side]:
            if not getattr(O[side], "lost", False) and h[side][m["payload"]] != 1: raise Violation("own message delivered %d times" % h[side][m["payload"]])
        E = {m["payload"]: m for m in exp[side]}
        for m in exp[side]: ctx.eval((cf.describe(), side, m["qos"], k))
        if strict[side] and miss[side]: m = miss[side][0]; raise Violation("side %d: %d of %d messages are lost, e.g. QoS %d %s %r; %s" % (side, len(miss[side]), len(exp[side]), m["qos"], m["topic"], m["payload"][:20], cf.describe()))
        for p in O[side].seen:
            pay = bytes(p.payload)
            if pay in own[side]: continue
            if pay not in E: raise Violation("side %d: %s %r must not be here; %s" % (side, p.topic, pay[:20], cf.describe()))
            m = E[pay]
            if (p.topic, p.qos, norm(p.props)) != (m["topic"], m["qos"], m["props"]): raise Violation("side %d: got %s, expected %s; %s" % (side, (p.topic, p.qos, norm(p.props)), (m["topic"], m["qos"], m["props"]), cf.describe()))
            if m["qos"] != 1 and h[side][pay] > 1: raise Violation("side %d: QoS %d message %s %r %d times; %s" % (side, m["qos"], m["topic"], pay[:20], h[side][pay], cf.describe()))
        ctx.count("judged_on_side_%d" % side, len(exp[side])); ctx.count("repeated_qos1", sum(v - 1 for v in h[side].values() if v > 1))
        # order of each publisher's messages of one QoS on one topic
        pos = {}
        for i, p in enumerate(O[side].seen): pos.setdefault(bytes(p.payload), i)
        last = {}
        for m in exp[side]:
            if m["payload"] in pos:
                q = (m["topic"], m["who"], m["ver"], m["qos"])
                if pos[m["payload"]] < last.get(q, -1) and cf.count == 1: raise Violation("side %d: %s %r came before an earlier message of its publisher; %s" % (side, m["topic"], m["payload"][:20], cf.describe()))
                last[q] = pos[m["payload"]]
    bring_up(O, cf, "after the cuts", limit=250); old = {m["payload"] for m in sent[0] + sent[1]}      # stragglers
    for o in O: o.seen[:] = []; o.ignore = old
    exchange(ctx, cf, O, u, 30, "after the cuts", k)
    L.close(); A.stop(); B.stop()

def reload(ctx, k):
    """Bridges changed, removed and added while running."""
    r = ctx.rng; cf = Conf(r); u = Uniq(); A, B, L = brokers(ctx, cf); OB = Obs(ctx, B, "obsB"); A.start(); OA = Obs(ctx, A, "obsA"); O = [OA, OB]; bring_up(O, cf, "start"); here = True
    base = A.conf_text
    for i in range(5):
        if here: exchange(ctx, cf, O, u, 25, "configuration %d" % i, k)
        n = A.log().count("Timer config not changed") + A.log().count("Rescheduling timers")
        if here and r.random() < 0.4: A.extra = ""; here = False
        else: cf = Conf(r, name="br%d" % i if r.random() < 0.5 else cf.name); A.extra = cf.text(L.port, {} if r.random() < 0.6 else {"address": "localhost"}); here = True; A.set("dns_ms", r.choice([0, 200]))
        ctx.step("reload", cf.describe() if here else "removed"); c0 = A.log().count("Reloading config"); A.write("flashmq.conf", A.conf_text()); A.hup(); A.wait_log("config not changed|Timer", 20, count=1) if False else time.sleep(0.1); O[0].w.barrier([OA.c])
        retry_connect(lambda: step_clock(O, 1, 2.1)); ctx.count("reloads"); A.t_est = 0
        if here:
            A.log_off = 0
            bring_up(O, cf, "after reload")
        else:
            O[0].w.until(lambda: not L.pairs, 20, "end of the removed bridge's connection")
            exp = [[], []]
            for j in range(20): side = r.randint(0, 1); m = message(r, u, cf, side); m["retain"] = False; publish_one(O[side], m); exp[side].append(m)
            judge(ctx, cf, O, exp, "removed bridge", k)
            for _ in range(3): step_clock(O, 1, 5.1)
            if L.pairs: raise Violation("removed bridge connected again")
        for o in O: o.seen.clear()
        # no retained leftovers from one configuration to the next
        for o in O:
            c = Client(o.w, o.b, "clean", 4); c.connect(); c.sub("#"); o.w.barrier([c]); o.w.barrier([c]); ts = [p.topic for p in c.pubs if p.retain]
            for t in ts: c.pub(t, b"", 1, True)
            o.w.barrier([c]); c.disconnect()
        settle(O, lambda: True, "x"); step_clock(O, 1, 0.2)
        for o in O: o.seen.clear()
    L.close(); A.stop(); B.stop()

def attempts(O, L):
    """Time for the bridge to try, and to try again."""
    for i in range(120):
        step_clock(O, 1, 1.1 if i % 4 else 5.1); time.sleep(0.02)
        if L.conns: break
    else: raise Violation("bridge didn't try to connect")
    for i in range(16): step_clock(O, 1, 5.1 if i % 4 == 0 else 1.1)

def auth(ctx, k):
    """The credentials and the certificate checks."""
    r = ctx.rng
    for good in (True, False):
        cf = Conf(r); cf.retain = True; u = Uniq(); so = p14.plugin(); name = r.choice(["remote user", "ü", "u" * 100]) if False else r.choice(["remoteuser", "ü-x", "u" * 100]); verdict = "good" if good else r.choice(["bad", "async-5-bad", "throw"])
        B = ctx.broker(threads=2, conf=dict(BIGQ, plugin=so, plugin_opt_log="{dir}/plug"), name="remote"); L = Link(B.port)
        A = ctx.broker(threads=2, conf=dict(BIGQ, mosquitto_acl_file="{dir}/acl"), files={"acl": "topic readwrite #\nuser lu\ntopic readwrite #\ntopic deny %sout/b\ntopic deny %sin/b\n" % (cf.L, cf.L)}, extra=cf.text(L.port, dict(remote_username=name, remote_password=verdict, local_username="lu")))
        ctx.step(cf.describe(), verdict); OA = Obs(ctx, A, "obsA"); OB = Obs(ctx, B, "obsB"); O = [OA, OB]
        if good:
            bring_up(O, cf, "with credentials"); exp = [[], []]
            for i in range(60):
                side = r.randint(0, 1); m = message(r, u, cf, side, False); publish_one(O[side], m); exp[side].append(m); x = cf.crosses(side, m)
                if x and (m["topic"] if side == 0 else x["topic"]) in (cf.L + "out/b", cf.L + "in/b"): x = None; ctx.count("denied_by_acl")
                if x: exp[1 - side].append(x)
            judge(ctx, cf, O, exp, "with credentials and ACL", k)
        else:
            attempts(O, L)
            exp = [[], []]
            for i in range(30): side = r.randint(0, 1); m = message(r, u, cf, side, False); publish_one(O[side], m); exp[side].append(m)
            judge(ctx, cf, O, exp, "refused credentials (%s)" % verdict, k)
        logins = [json.loads(l) for l in open(B.path("plug"), errors="replace") if '"login_check"' in l]; mine = [x for x in logins if x.get("clientid", "").startswith("br")]
        if not mine: raise Violation("the bridge never tried to log in: %s %d" % ([x.get("clientid") for x in logins][:20], len(logins)))
        for x in mine:
            ctx.eval(("login", good, verdict, k))
            if x["username"].encode("latin-1").decode() != name or x["password"] != verdict: raise Violation("bridge logged in as %r with %r, configured %r, %r" % (x["username"], x["password"], name, verdict))
        L.close(); A.stop(); B.stop()
    # TLS: the chain must be verified, and the name
    for mode, cn, by, want in (("on", "localhost", "ca", True), ("on", "localhost", "evil", False), ("on", "example.org", "ca", False), ("unverified", "example.org", "evil", True)):
        cf = Conf(r, share=False); cf.retain = True; u = Uniq(); B = ctx.broker(threads=2, listeners=[{"name": "tcp"}, {"name": "tls", "fullchain": "{dir}/srv.crt", "privkey": "{dir}/srv.key"}], conf=dict(BIGQ), name="remote", start=False)
        certs.ca(B.dir); certs.ca(B.dir, "evil", "Evil CA"); certs.cert(B.dir, "srv", cn, by); B.start(); L = Link(B.ports["tls"]); B.port = B.ports["tcp"]
        A = ctx.broker(threads=2, conf=dict(BIGQ), extra=cf.text(L.port, dict(address="localhost", tls=mode, ca_file=B.dir + "/ca.crt"))); OA = Obs(ctx, A, "obsA"); OB = Obs(ctx, B, "obsB"); O = [OA, OB]; ctx.eval(("tls", mode, cn, by, cf.ver))
        if want: bring_up(O, cf, "TLS %s with certificate for %s by %s" % (mode, cn, by)); exchange(ctx, cf, O, u, 30, "TLS", k)
        else:
            attempts(O, L)
            if "logged in successfully" in "".join(x for x in B.log().split("\n") if "ClientID='br" in x): raise Violation("bridge logged in to a server with a certificate for %s by %s" % (cn, by))
            exp = [[], []]
            for i in range(20): side = r.randint(0, 1); m = message(r, u, cf, side, False); publish_one(O[side], m); exp[side].append(m)
            judge(ctx, cf, O, exp, "bad certificate", k)
        L.close(); A.stop(); B.stop()

def hub(ctx, k):
    """A has bridges to B and C: what comes from one goes to the other and not back."""
    r = ctx.rng; u = Uniq(); mk = lambda n: Conf(r, prefixes=False, share=False, name=n); c1, c2 = mk("brB"), mk("brC")
    for c in (c1, c2):
        c.bit = True; c.retain = True; c.pub = {"all/#": r.randint(0, 2), "to" + c.name + "/#": 2}; c.subs = {"all/#": r.randint(0, 2), "from" + c.name + "/#": 1}
    AL = dict(max_incoming_topic_alias_value=50, max_outgoing_topic_alias_value=50); B = ctx.broker(threads=2, conf=dict(BIGQ, **AL), name="B"); C = ctx.broker(threads=2, conf=dict(BIGQ, **AL), name="C")
    A = ctx.broker(threads=r.choice([1, 3]), conf=dict(BIGQ, **AL), extra=c1.text(B.port) + c2.text(C.port)); ctx.step(c1.describe(), c2.describe()); O = [Obs(ctx, x, "obs%d" % i) for i, x in enumerate((A, B, C))]
    for i in range(60):
        for o in O: o.pubr(4, 9).send(publish(4, "all/probe", "probe%s.%d" % (o.name, i), 0))
        for _ in range(6):
            for o in O: o.w.barrier([o.c] + list(o.p.values())); o.w.pump(0.002)
        if all(all(b"probe%s.%d" % (x.name.encode(), i) in o.probes for x in O) for o in O): break
        step_clock(O, 1, 1.1 if i % 4 else 5.1)
    else: raise Violation("the bridges do not relay: %s" % [sorted(o.probes)[-4:] for o in O])
    for ph in range(3):
        exp = [[], [], []]
        for i in range(50):
            s = r.randint(0, 2); ver = r.choice([4, 5]); pr = rprops(r) if ver == 5 else []
            m = dict(topic=r.choice(["all/a", "all/b/c", "tobrB/x", "tobrC/x", "frombrB/x", "frombrC/x", "other"]), payload=u(), qos=r.randint(0, 2), retain=r.random() < 0.2, ver=ver, who=r.randint(0, 1), pr=pr, props=norm(pr, ver)); publish_one(O[s], m); exp[s].append(m)
            at_a = m
            if s: at_a = (None, c1, c2)[s].crosses(1, m); at_a and exp[0].append(at_a)
            for d, c in ((1, c1), (2, c2)):
                x = c.crosses(0, at_a) if at_a and d != s else None
                if x: exp[d].append(x); ctx.count("hub_relayed")
        judge(ctx, c1, O, exp, "hub " + c2.describe(), k)
    A.stop(); B.stop(); C.stop()
