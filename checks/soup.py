"""A mixture of everything clients do, without waiting for answers: load for P21 (races), P22 (reload), P27 (shutdown)."""
from common import *
TOP = ["t/%d" % i for i in range(6)] + ["t/a/b", "t/a/b/c", "u/1", "u/2/3", "cfg/x"]
FIL = TOP[:4] + ["t/#", "t/+", "#", "+/+", "t/a/#", "u/#", "$SYS/#", "$share/g/t/#", "$share/g/t/+", "$share/h/#", "$share/h/u/#"]
class Soup:
    def __init__(self, ctx, w, b, n=14, big=2000, kinds=None, users=None, cmd=False, tls=None):
        self.ctx = ctx; self.w = w; self.b = b; self.r = ctx.rng; self.n = n; self.big = big; self.cl = []; self.sent = 0; self.kinds = kinds or [{}]; self.users = users; self.cmd = cmd; self.ops = {}
    def op(self, k): self.ops[k] = self.ops.get(k, 0) + 1
    def new(self):
        r = self.r; cid = "c%d" % r.randint(0, self.n + 3) if r.random() < 0.9 else ""
        ver = r.choice([3, 4, 5, 5]); ver = 4 if ver == 3 and not cid else ver
        kind = r.choice(self.kinds)
        try: c = Client(self.w, self.b, cid, ver, **{k: v for k, v in kind.items()})
        except (OSError, Timeout): self.op("refused"); return None
        will = dict(topic=r.choice(TOP), payload=b"w" * r.choice([1, 500]), qos=r.randint(0, 2), retain=r.random() < 0.3, props={"will_delay": r.choice([0, 2, 60])} if ver == 5 else None) if r.random() < 0.5 else None
        pr = [("session_expiry", r.choice([0, 5, 100, 0xFFFFFFFF])), ("topic_alias_max", r.choice([0, 5])), ("receive_max", r.choice([1, 3, 100]))] if ver == 5 else None
        if pr and r.random() < 0.2: pr.append(("user", ("fmq_client_group_id", "grp")))
        u, p = r.choice(self.users) if self.users else (None, None)
        c.ack = r.random() < 0.8; c.errors_ok = True
        c.fail = lambda m: c.drop()       # judged elsewhere
        clean = True if not cid else r.random() < 0.4
        try: c.connect(clean=clean, keepalive=r.choice([60000, 60000, 0, 30]), user=u, pw=p, will=will, pr=pr, wait=False)
        except OSError: c.drop(); return None
        c.since = self.sent; self.op("connect"); return c
    def step(self):
        r = self.r; self.sent += 1; self.cl = [c for c in self.cl if c.open]
        if len(self.cl) < self.n and (len(self.cl) < 4 or r.random() < 0.3):
            c = self.new()
            if c: self.cl.append(c)
            return
        if not self.cl: return
        c = r.choice(self.cl); k = r.random()
        if c.connack is None:
            if r.random() < 0.02: c.drop()
            else: self.w.pump(0.003)
            return
        try:
            if k < 0.55:
                pr = None
                for i in range(r.choice([1, 1, 5, 20])):
                    if c.ver == 5 and r.random() < 0.4: pr = [("expiry", r.choice([1, 30, 5000]))]
                    q = r.choice([0, 0, 1, 2]); t = r.choice(TOP); ret = r.random() < 0.3
                    c.send(publish(c.ver, t, b"" if ret and r.random() < 0.3 else b"x" * r.choice([1, 50, self.big]), q, ret, c.pid() if q else None, pr=pr))
                self.op("publish")
            elif k < 0.72:
                c.send(subscribe(c.ver, c.pid(), [(r.choice(FIL), subopt(r.randint(0, 2)) if c.ver < 5 else subopt(r.randint(0, 2), False, r.random() < 0.5, r.randint(0, 2))) for _ in range(r.choice([1, 1, 3]))])); self.op("subscribe")
            elif k < 0.80: c.send(unsubscribe(c.ver, c.pid(), [r.choice(FIL)])); self.op("unsubscribe")
            elif k < 0.84: c.send(packet(PINGREQ, 0, b"")); c.ping_sent += 1
            elif k < 0.87 and not c.paused: c.pause(); self.op("pause")
            elif k < 0.90 and c.paused: c.resume()
            elif k < 0.93: c.drop(rst=r.random() < 0.5); self.op("drop")
            elif k < 0.95: c.send(disconnect(c.ver, r.choice([0, 4]) if c.ver == 5 else 0)); self.op("disconnect")
            elif k < 0.97 and self.cmd:
                c.send(publish(c.ver, r.choice(["cmd/publish/1/0", "cmd/publish-thread", "cmd/task/5", "cmd/kick/c1", "cmd/kill/c2", "cmd/addsub/c3", "cmd/delsub/c3", "cmd/poll", "cmd/addr"]), "t/1", 0)); self.op("plugin command")
            elif k < 0.98: c.send(b"\xff\xff\xff"); self.op("garbage")
        except (OSError, KeyError, IndexError): c.drop()
    def run(self, steps, each=None):
        for i in range(steps):
            self.step()
            if i % 8 == 0: self.w.pump(0)
            if each and i % 50 == 0: each(i)
        self.w.pump(0.01)
    def close(self):
        for c in self.cl: c.drop()
        for k, v in self.ops.items(): self.ctx.count("soup_" + k.replace(" ", "_"), v)
