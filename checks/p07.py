from common import *
RULE = ("Random life histories of client ids (connects of all versions with and without clean start and with expiry intervals from 0 to never, normal and abnormal ends, changed expiry in DISCONNECT, take-overs, "
        "other usernames, simulated time up to hours, messages published meanwhile, unfinished QoS 2 exchanges) run next to a model of the promised state. Session-present, queued messages, subscriptions, "
        "unfinished exchanges and refusals are compared at each connect. Evaluation = one connect; distinct by (version, clean, expiry, previous fate, state sizes).")
BUDGET = {"quick": 420}

def cases(tier, rng):
    n = 1 if tier == "quick" else 8
    out = [("life-%d" % i, "life", {"k": i, "steps": 150}) for i in range(18 * n)]
    out += [("renew-%d" % i, "renew", {"k": i}) for i in range(6)]
    out += [("zero-%d" % i, "zero", {"k": i}) for i in range(4 * n)]
    out += [("across-%d" % i, "across", {"k": i}) for i in range(8 * n)]
    out += [("user", "user"), ("forever", "forever")]
    return out

NEVER = 0xFFFFFFFF

class Model:
    def __init__(self): self.s = {}; self.users = {}
    def session(self, cid, now, slack=14):
        """-> (session or None, certain)"""
        s = self.s.get(cid)
        if s is None: return None, True
        if s["since"] is None or s["interval"] >= NEVER: return s, True
        if now < s["since"] + s["interval"] - 2: return s, True
        if now > s["since"] + s["interval"] + slack: del self.s[cid]; return None, True
        return s, False

def life(ctx, k, steps):
    r = ctx.rng; T = r.choice([1, 2, 3]); limit = [1209600, 60, 0, 3000][k % 4]
    b = ctx.broker(threads=T, conf=dict(BIGQ, expire_sessions_after_seconds=limit), noise=r.choice([0, 300])); w = ctx.world(b); t0 = time.monotonic()
    now = lambda: time.monotonic() - t0 + b.get("clock") / 1e9
    lim = limit or NEVER; pub = Client(w, b, "pub", 5).connect(); m = Model(); live = {}; uq = Uniq()
    topics = ["t/%d" % i for i in range(5)]; filters = topics + ["t/+", "t/#", "#"]
    ids = ["c%d" % i for i in range(4)]
    def publish(n):
        for _ in range(n):
            t = r.choice(topics); q = r.choice([0, 1, 1, 2]); pay = uq(); ctx.step("publish", t, q, pay)
            pub.pub(t, pay, qos=q)
            for cid, s in m.s.items():
                for f, fq in s["subs"].items():
                    if match(f, t):
                        if s["since"] is None: s["expect"].append(pay)
                        elif min(q, fq): s["queue"].append(pay)
        w.barrier([pub])
    def verify(cid):
        c, s = live[cid], m.s[cid]; w.barrier([pub], [c]); got = [bytes(p.payload) for p in c.pubs]; c.pubs.clear(); c.inbox.clear()
        # a live session may also have its old queue in it
        d = diff(s["expect"], got)
        if d: raise Violation("%s (v%d, subscriptions %s): %s" % (cid, c.ver, s["subs"], d))
        s["expect"] = []; w.barrier([c])      # the acknowledgements are processed, too
    for st in range(steps):
        cid = r.choice(ids); x = r.random()
        if cid not in live or x < 0.15:
            if cid in live: verify(cid)
            s, sure = m.session(cid, now())
            if not sure:
                elapse(w, b, 16, T); s, sure = m.session(cid, now())
            ver = r.choice([3, 4, 5, 5, 5]); clean = r.random() < 0.2; exp = r.choice([None, 0, 20, 50, 300, 5000, 100000, NEVER]) if ver == 5 else None
            interval = min(exp or 0, lim) if ver == 5 else (0 if clean else lim); fate = "none" if s is None else "live" if s["since"] is None else "stored"
            if s and s["since"] is None and s["interval"] == 0: s = None      # not for others to pick up
            res = s is not None and not clean
            old = live.pop(cid, None)
            c = Client(w, b, cid, ver); before = len(s["queue"]) if s else 0
            if fate != "none" and cid in m.s and r.random() < 0.12 and not clean:
                # somebody else tries
                c.send(connect(ver, cid, clean, user="mallory" if m.s[cid]["user"] is None else None, pr={"session_expiry": 100}))
                c.w.until(lambda: not c.open, 30, "refusal of another user")
                if c.connack and c.connack.rc == 0: raise Violation("session of user %s resumed by another user" % m.s[cid]["user"])
                if old: live[cid] = old
                if old and not old.open: raise Violation("another user's connect closed the connection of %s" % cid)
                ctx.eval(("other user", ver, fate)); continue
            # always the same: the session of a closed connection may still be there for a moment
            user = m.users.setdefault(cid, r.choice([None, None, "alice"]))
            ctx.step("connect", cid, "v%d" % ver, "clean" if clean else "", exp, fate, "interval", interval, "t=%.1f" % now())
            c.connect(clean=clean, user=user, pw=None if user is None else "pw", pr={} if exp is None else {"session_expiry": exp})
            if old:
                w.until(lambda: not old.open, 30, "closing of the connection that was taken over")
                tick(w, b, T)
            if ver >= 4 and bool(c.connack.sp) != res: raise Violation("session present %d for %s (v%d clean=%s), which was %s (expected %d)\n%s" % (c.connack.sp, cid, ver, clean, fate, res, "\n".join(ctx.script[-12:])))
            live[cid] = c
            if not res: m.s[cid] = {"subs": {}, "queue": [], "expect": [], "user": user, "q2": None}
            s = m.s[cid]; s["since"] = None; s["interval"] = interval; s["expect"] += s["queue"]; s["queue"] = []
            ctx.eval((ver, clean, exp, fate, res, len(s["subs"]), min(before, 5))); ctx.count("resumed" if res else "new"); ctx.count("queued_messages_resumed", before if res else 0)
            verify(cid)
            # an unfinished QoS 2 exchange of the publisher side
            q2 = s["q2"]
            if q2 is None: q2 = (c.pid() + 1000, uq())
            dup = s["q2"] is not None; s["q2"] = q2; ctx.step("q2", cid, q2, "dup" if dup else "")
            if ver >= 4:
                c.hold.add(q2[0]); c.send(publish_(ver, "q2/" + cid, q2[1], q2[0], dup)); c.wait_ack(PUBREC, q2[0])
                if r.random() < 0.3: c.send(ack(ver, PUBREL, q2[0])); c.wait_ack(PUBCOMP, q2[0]); s["q2"] = None
                if not dup:
                    for o, z in m.s.items():
                        for f, fq in z["subs"].items():
                            if match(f, "q2/" + cid):
                                if z["since"] is None: z["expect"].append(q2[1])
                                elif fq: z["queue"].append(q2[1])
            else: s["q2"] = None if not dup else q2
            verify(cid)
            if r.random() < 0.8:
                f = r.choice(filters); q = r.randint(0, 2); c.sub((f, q)); s["subs"][f] = q; ctx.step("sub", cid, f, q)
        elif x < 0.55:
            verify(cid); c = live.pop(cid); s = m.s[cid]; how = r.choice(["drop", "rst", "disc", "disc", "discexp"])
            if how == "discexp" and (c.ver < 5 or not s["interval"]): how = "disc"
            if how == "discexp":
                e = r.choice([0, 0, 20, 70, 4000, NEVER]); s["interval"] = min(e, lim); ctx.step("disconnect", cid, "expiry", e)
                drop_and_wait(w, b, c, T, lambda c: c.disconnect(pr={"session_expiry": e}))
            elif how == "disc": drop_and_wait(w, b, c, T, lambda c: c.disconnect())
            else: drop_and_wait(w, b, c, T, how)
            ctx.step("end", cid, how, "t=%.1f" % now())
            s["since"] = now()
            if s["interval"] == 0: del m.s[cid]
        elif x < 0.75: publish(r.randint(1, 6))
        elif x < 0.85 and cid in live:
            s = m.s[cid]; f = r.choice(list(s["subs"]) or ["t/1"]); live[cid].unsub(f); s["subs"].pop(f, None)
        elif r.random() < 0.8:
            d = r.choice([3, 12, 25, 40, 90, 400, 6000]); ctx.step("elapse", d)
            if d < 100: elapse(w, b, d, T)
            else: b.advance(d - 20); tick(w, b, T); elapse(w, b, 20, T)
            for o in ids: m.session(o, now())
            # the keep-alive of the helper connections is long, they stay
            for o in live.values():
                w.pump()
                if not o.open: raise Violation("%s was closed" % o.name)
        ctx.peak("sessions_alive", len(m.s))
    for cid in list(live): verify(cid)
    ctx.sample({"last steps": ctx.script[-8:]})

def publish_(ver, topic, pay, pid, dup): return publish(ver, topic, pay, 2, False, pid, dup)

def renew(ctx, k):
    """Reconnecting starts the interval anew, whatever was scheduled for the earlier disconnections."""
    r = ctx.rng; b = ctx.broker(threads=1, conf=dict(BIGQ, expire_sessions_after_seconds=100)); w = ctx.world(b); pub = Client(w, b, "pub", 4).connect(); n = 0
    for ver, exp in ((4, 100), (5, 60), (5, 100)):
        cid = "c%d%d" % (ver, exp); c = Client(w, b, cid, ver).connect(clean=False, pr={"session_expiry": exp}); c.sub(("r/" + cid, 1))
        for rd in range(6):
            drop_and_wait(w, b, c, 1, r.choice(["drop", "rst", lambda c: c.disconnect()]))
            n += 1; pub.pub("r/" + cid, "m%d" % n, qos=1)
            elapse(w, b, exp * r.choice([0.3, 0.5, 0.7, 0.9]), 1)
            c = Client(w, b, cid, ver); c.connect(clean=False, pr={"session_expiry": exp}); w.barrier([c])
            if not c.connack.sp or [bytes(p.payload) for p in c.pubs] != [b"m%d" % n]:
                raise Violation("session with interval %d ended early in round %d (session present %d, %s)" % (exp, rd, c.connack.sp, c.pubs))
            if r.random() < 0.3: elapse(w, b, exp * 1.3, 1)      # connected sessions do not expire
            ctx.eval(("renew", ver, exp, rd))
        drop_and_wait(w, b, c, 1); elapse(w, b, exp + 16, 1); c = Client(w, b, cid, ver).connect(clean=False, pr={"session_expiry": exp})
        if c.connack.sp: raise Violation("session still present %d s after its interval of %d s" % (16, exp))
        ctx.eval(("gone", ver, exp))

def zero(ctx, k):
    """Interval 0 / clean session: everything is gone at once, without waiting for any clean-up."""
    r = ctx.rng; b = ctx.broker(threads=2, conf=BIGQ, noise=r.choice([0, 300])); w = ctx.world(b); pub = Client(w, b, "pub", 4).connect()
    for rd in range(60):
        cid = "z%d" % rd; kind = r.choice(["v3clean", "v4clean", "v5none", "v5zero", "v5disc0", "v5clean"])
        ver = {"v3clean": 3, "v4clean": 4}.get(kind, 5); c = Client(w, b, cid, ver)
        c.connect(clean=kind != "v5none", pr={"session_expiry": 0 if kind == "v5zero" else 500} if kind in ("v5zero", "v5disc0") else {}); c.sub(("z/" + cid, 2))
        if kind != "v5disc0" and r.random() < 0.5: c.drop()
        else: c.disconnect(pr={"session_expiry": 0} if kind == "v5disc0" else None)
        if r.random() < 0.5: drop = tick(w, b, 2)
        if r.random() < 0.5: pub.pub("z/" + cid, "offline", qos=2)
        d = Client(w, b, cid, r.choice([4, 5])); d.connect(clean=False, pr={"session_expiry": 50})
        if d.connack.sp: raise Violation("session present after %s" % kind)
        pub.pub("z/" + cid, "x", qos=1); w.barrier([pub], [d])
        if d.pubs: raise Violation("after %s the next session got %s" % (kind, d.pubs))
        d.drop(); ctx.eval((kind, d.ver))

def across(ctx, k):
    """The interval goes on while the broker is restarted and while it is down."""
    r = ctx.rng; b = ctx.broker(threads=2, storage=True, conf=BIGQ); now = [0.0]
    def go(d): b.advance(d); now[0] += d
    w = ctx.world(b); S = {}
    for i in range(40):
        cid = "a%d" % i; e = r.choice([100, 300, 1000, 1000, 4000, 90000]); c = Client(w, b, cid, 5).connect(clean=False, pr={"session_expiry": e}); c.sub(("a/" + cid, 1)); S[cid] = [e, None, c]
    pub = Client(w, b, "pub", 4).connect(keepalive=0)
    for rd in range(r.randint(1, 3)):
        for cid, x in S.items():
            if x[1] is None and r.random() < 0.4: (x[2].disconnect if r.random() < 0.5 else x[2].drop)(); x[1] = now[0]
        w.barrier([pub]); time.sleep(0.1); tick(w, b, 2); go(r.choice([0, 20, 150, 600]))
        if not pub.open: pub = Client(w, b, "pub", 4).connect(keepalive=0)
        w.barrier([pub]); b.stop()
        for x in S.values():
            if x[1] is None: x[1] = now[0]
        go(r.choice([0, 30, 150, 700, 3000])); b.start(); w = ctx.world(b); pub = Client(w, b, "pub", 4).connect(keepalive=0); go(r.choice([0, 40, 400])); tick(w, b, 2)
        if not pub.open: pub = Client(w, b, "pub", 4).connect(keepalive=0)
        for cid in r.sample(sorted(S), 12):
            e, since, _ = S[cid]; left = since + e - now[0]
            if -30 < left < 15: continue
            c = Client(w, b, cid, 5).connect(clean=False, pr={"session_expiry": e}); ctx.eval(("across", e, rd, left > 0)); ctx.step(cid, e, left, c.connack.sp)
            if bool(c.connack.sp) != (left > 0): raise Violation("session with interval %d, %d s %s its end (across a restart): session present is %d" % (e, abs(left), "before" if left > 0 else "after", c.connack.sp))
            if not c.connack.sp: c.sub(("a/" + cid, 1))
            p = "m%d" % rd; pub.pub("a/" + cid, p, qos=1); w.barrier([pub], [c])
            if [bytes(q.payload) for q in c.pubs] != [p.encode()]: raise Violation("session across a restart got %s" % c.pubs)
            S[cid] = [e, None, c]

def user(ctx):
    """Only the same username resumes a session; a failed attempt changes nothing."""
    b = ctx.broker(threads=2, conf=BIGQ); w = ctx.world(b); pub = Client(w, b, "pub", 4).connect()
    names = [None, "alice", "alic", "alice ", "Alice"]
    for ver in (4, 5):
        for i, u in enumerate(names):
            cid = "u%d%d" % (ver, i); c = Client(w, b, cid, ver).connect(clean=False, user=u, pr={"session_expiry": 1000}); c.sub(("u/" + cid, 1))
            for online in (True, False):
                if not online: c.disconnect()
                pub.pub("u/" + cid, "m%d" % online, qos=1)
                for o in names:
                    if (o or "") == (u or ""): continue
                    for v2 in (4, 5):
                        d = Client(w, b, cid, v2); d.send(connect(v2, cid, False, user=o, pr={"session_expiry": 1000})); w.until(lambda: not d.open or d.connack, 30, "answer")
                        if d.connack and d.connack.rc == 0: raise Violation("session of %r resumed by %r" % (u, o))
                        w.until(lambda: not d.open, 30, "close")
                        if d.pubs: raise Violation("messages of %r given to %r" % (u, o))
                        ctx.eval((ver, u, o, v2, online))
                if online:
                    w.barrier([c])
                    if not c.open or len(c.pubs) != 1: raise Violation("attempts of other users disturbed %r: open %s, %s" % (u, c.open, c.pubs))
                    c.pubs.clear()
            c = Client(w, b, cid, ver).connect(clean=False, user=u, pr={"session_expiry": 1000}); w.barrier([c])
            if not c.connack.sp or [bytes(p.payload) for p in c.pubs] != [b"m0"]: raise Violation("session of %r was damaged by other users: %d %s" % (u, c.connack.sp, c.pubs))

def forever(ctx):
    """expire_sessions_after_seconds 0 and expiry 0xFFFFFFFF: never."""
    b = ctx.broker(threads=1, conf=dict(BIGQ, expire_sessions_after_seconds=0)); w = ctx.world(b); pub = Client(w, b, "pub", 4).connect(keepalive=0)
    for ver, pr in ((4, None), (5, {"session_expiry": 0xFFFFFFFF}), (5, {"session_expiry": 0xFFFFFFFE}), (3, None)):
        c = Client(w, b, "f%d" % ver, ver).connect(clean=False, pr=pr); c.sub(("f", 1)); c.disconnect(); tick(w, b, 1); n = 0
        for d in (100, 86400, 86400 * 365, 86400 * 3650): b.advance(d); tick(w, b, 1); tick(w, b, 1)
        if not pub.open: pub = Client(w, b, "pub", 4).connect(keepalive=0)
        pub.pub("f", "x", qos=1); c = Client(w, b, "f%d" % ver, ver).connect(clean=False, pr=pr); w.barrier([c])
        if (ver > 3 and not c.connack.sp) or len(c.pubs) != 1: raise Violation("session without limit is gone (v%d %s)" % (ver, pr))
        ctx.eval(("forever", ver, str(pr))); c.unsub("f"); c.disconnect()
