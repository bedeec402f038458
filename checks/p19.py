from common import *
RULE = ("Random broker states (sessions of all versions with usernames, routing groups, options, identifiers, share groups, $-subscriptions, queues in every QoS state, retained messages, delayed wills, sessions that must not survive) are stopped and started one to three times "
        "with simulated time in between; then everything observable is compared with a model: queues before and after new messages, packet ids of unfinished exchanges, subscriptions by probing, wills with times, the retained store, refusals. Evaluation = one restored item judged; distinct by its kind and attributes.")
BUDGET = {"quick": 420}
JOBS = 6
NEVER = 0xFFFFFFFF

def cases(tier, rng):
    n = 1 if tier == "quick" else 12
    return [("history-%d" % i, "history", {"k": i}) for i in range(18 * n)] + [("qos2-%d" % i, "qos2", {"k": i}) for i in range(4 * n)] + [("wills-%d" % i, "wills", {"k": i}) for i in range(4 * n)] + \
        [("many-%d" % i, "many", {"k": i}) for i in range(n)] + [("limits", "limits"), ("empty", "empty"), ("changed", "changed"), ("far", "far")]

TOP = ["t/a", "t/b", "t/a/b", "t//c", "/t", "t/é日", "t/x y", "u/" + "l" * 200, "t/a/b/c/d/e/f/g"]
FIL = TOP + ["t/+", "t/#", "+/a", "#", "+/+/b", "t/+/c", "/#", "/+", "t/a/#", "t/+/b/#", "u/#"]

def rprops(r):
    p = []
    if r.random() < 0.3: p.append((3, r.choice(["text/plain", "é", ""])))
    if r.random() < 0.3: p += [(8, "re/ply")]
    if r.random() < 0.3: p += [(9, r.choice([b"", b"\x00\x01\xff", b"c" * 300]))]
    if r.random() < 0.3: p += [(38, (k, v)) for k, v in [("k", "v"), ("k", "v2"), ("", ""), ("é", "x" * 500)][:r.randint(1, 4)]]
    if r.random() < 0.2: p += [(1, 1)]
    return p
def norm(pr, ver=5):
    """Properties of a message that must survive, in comparable form."""
    if ver != 5: return ()
    name = lambda k: PROPS[k][0] if isinstance(k, int) else k
    out = [(name(k), v if not isinstance(v, (bytes, bytearray)) else bytes(v)) for k, v in pr]
    u = [x for x in out if x[0] == "user"]
    return tuple(sorted([x for x in out if x[0] in ("content_type", "response_topic", "correlation", "payload_format")], key=str)) + tuple(u)

class S:
    """What the broker must know of a session."""
    def __init__(s, cid, ver, user, exp, group): s.cid = cid; s.ver = ver; s.user = user; s.exp = exp; s.group = group; s.subs = {}; s.queue = []; s.since = None; s.c = None; s.unacked = []; s.rel = []

def restart(ctx, b, r, w, now, ok=True):
    n = r.choice([1, 1, 2, 3]); away = 0
    for i in range(n):
        b.stop(); d = r.choice([0, 0, 1, 30, 100, 3600, 86400]); b.advance(d); b.start(); ctx.step("restarted, away for", d); ctx.count("restarts")
    return n

def expect(s, m, f, o):
    q, nl, rap, sid = o
    return (m["topic"], m["pay"], min(q, m["q"]), bool(m["ret"] and rap), sid, norm(m["pr"], s.ver))
def got(s, x):
    return (x.topic, bytes(x.payload), x.qos, x.retain, x.prop("sub_id"), norm(x.props, s.ver) if s.ver == 5 else ())

def history(ctx, k):
    r = ctx.rng; T = r.choice([1, 2, 4]); lim = r.choice([0, 4000000000, 3000])
    b = ctx.broker(threads=T, conf=dict(BIGQ, expire_sessions_after_seconds=lim, max_string_length=65535), storage=True); w = ctx.world(b); t0 = time.monotonic(); now = lambda: time.monotonic() - t0 + b.get("clock") / 1e9
    u = Uniq("m"); sess = {}; shared = {}; ret = {}; slack = [2]; pubn = [0]; gsent = {}
    def open_(s, clean=False, expect_sp=None):
        c = Client(w, b, s.cid, s.ver); pr = None
        if s.ver == 5: pr = [("session_expiry", s.exp)] + ([("user", ("fmq_client_group_id", s.group))] if s.group else [])
        c.connect(clean=clean, user=s.user, pr=pr); s.c = c
        if expect_sp is not None and s.ver > 3 and c.connack.sp != expect_sp: raise Violation("session of %s (v%d, expiry %s, user %s): session present %d, expected %d" % (s.cid, s.ver, s.exp, s.user, c.connack.sp, expect_sp))
        return c
    def left(s): 
        """Seconds the session still has; None = for ever."""
        e = s.exp if s.ver == 5 else NEVER
        e = min(e, lim or NEVER)
        return None if e >= NEVER else s.since + e - now()
    def route(m, group=None, cid=None):
        for s in sess.values():
            if group and s.group == group: continue
            if s.since is not None and left(s) is not None and left(s) < -16 - slack[0]: continue
            for f, o in s.subs.items():
                g, ff = share(f)
                if g or not match(ff, m["topic"]): continue
                if o[1] and cid == s.cid: continue
                e = expect(s, m, f, o)
                if s.since is None or e[2]: s.queue.append(e)
        for (g, f), mem in shared.items():
            if match(f, m["topic"]) and m["q"]: gsent[(g, f)].append(m["pay"])
    def publish(n, who=None):
        c = who
        if c is None:
            pubn[0] += 1; grp = r.choice([None, None, "g1"]); c = Client(w, b, "pub%d" % pubn[0], 5); c.connect(pr=[("user", ("fmq_client_group_id", grp))] if grp else None)
        else: grp = sess[c.cid].group
        for _ in range(n):
            m = {"topic": r.choice(TOP), "pay": u(b"x" * r.choice([0, 0, 0, 10, 3000])), "q": r.choice([0, 1, 1, 2, 2]), "ret": r.random() < 0.25, "pr": rprops(r) if c.ver == 5 else []}
            if any(p[0] == 1 for p in m["pr"]) is False and r.random() < 0.1: m["pay"] += bytes(range(256))
            c.pub(m["topic"], m["pay"], m["q"], m["ret"], pr=m["pr"]); route(m, grp, c.cid)
            if m["ret"]: ret[m["topic"]] = m
        if r.random() < 0.2 and ret: t = r.choice(sorted(ret)); c.pub(t, b"", 1, True); m = {"topic": t, "pay": b"", "q": 1, "ret": True, "pr": []}; route(m, grp, c.cid); del ret[t]
        w.barrier([c])
        if who is None: c.disconnect()
    member = lambda s: any(s in v for v in shared.values())
    def judge(s, what):
        """Everything that came so far is what the model has queued for it, in order."""
        a = s.queue; sh = member(s); g = [got(s, x) for x in s.c.pubs if not (sh and x.topic.startswith("sh/"))]; s.c.inbox.clear()
        def seq(l):
            o = []
            for x in l:
                if not o or o[-1] != x[1]: o.append(x[1])
            return o
        by = lambda l, q: [x for x in l if x[2] == q or q < 0]
        d = diff([repr(x) for x in a], [repr(x) for x in g])
        if d: raise Violation("%s, %s (v%d, subscriptions %s): %s" % (what, s.cid, s.ver, s.subs, d[:1500]))
        for q in (1, 2):
            if seq(by(a, q)) != seq(by(g, q)): raise Violation("%s, %s: order of QoS %d messages changed" % (what, s.cid, q))
        for x in a: ctx.eval((what, s.ver, x[2], x[3], x[4], x[5], len(x[1]) > 100))
        ctx.count("restored_messages" if what == "queue" else "probe_messages", len(a)); s.queue = []; s.c.pubs = [x for x in s.c.pubs if sh and x.topic.startswith("sh/")]
    def subs(s, n):
        for _ in range(n):
            f = r.choice(FIL); o = (r.randint(0, 2), False, False, None)
            if s.ver == 5: o = (o[0], r.random() < 0.3, r.random() < 0.5, r.choice([None, 1, 127, 128, 268435455]))
            s.c.sub((f, subopt(o[0], o[1], o[2], 2 if s.ver == 5 else 0)), pr=[("sub_id", o[3])] if o[3] else None); s.subs[f] = o
        if r.random() < 0.3 and s.subs: f = r.choice(sorted(s.subs)); s.c.unsub(f); del s.subs[f]
        w.barrier([s.c]); s.c.pubs.clear() if s.ver != 5 else None
    for rd in range(4 if not ctx.thorough else 8):
        # ---- build
        for i in range(5 if rd == 0 else 2):
            cid = "s%d-%d" % (rd, i) if r.random() < 0.85 else "é%d %d'\"" % (rd, i); s = S(cid, r.choice([3, 4, 5, 5, 5]), r.choice([None, None, "alice", "böb"]), r.choice([NEVER, NEVER, 100, 4000, 100000]), None)
            if s.ver == 5: s.group = r.choice([None, None, "g1"])
            sess[cid] = s; open_(s, s.ver == 5); subs(s, r.randint(1, 6)); s.queue = []; s.c.pubs.clear()
        for s in sess.values():
            if s.c is not None and not member(s) and r.random() < 0.4: subs(s, r.randint(1, 2)); s.queue = []; s.c.pubs.clear()
        if rd == 0 and lim != 3000:
            for g, f in (("g1", "sh/a"), ("g2", "sh/+"), ("G", "sh/#")):
                shared[(g, f)] = []; gsent[(g, f)] = []
                for i in range(3):
                    s = S("m%s%d" % (g, i), r.choice([4, 5]), None, NEVER, None); sess[s.cid] = s; open_(s, s.ver == 5); q = r.choice([1, 2]); s.c.sub(("$share/%s/%s" % (g, f), q)); s.subs["$share/%s/%s" % (g, f)] = (q, False, False, None); shared[(g, f)].append(s)
        gone = []
        for i in range(4):     # not to survive
            kind = r.choice(["clean4", "zero5", "disc0", "clean4", "expired"]); s = S("gone%d-%d" % (rd, i), 4 if kind == "clean4" else 5, None, {"zero5": 0, "disc0": 5000, "expired": 20}.get(kind, 0), None); open_(s, True); s.c.sub(("t/#", 2)); s.kind = kind; gone.append(s)
        w.barrier([s.c for s in sess.values() if s.c]); publish(4)
        for s in sess.values():
            if s.c: w.barrier([s.c]); judge(s, "live")
        # ---- disconnect in a random way; some stay connected until the stop
        stay = [s for s in sess.values() if s.c and r.random() < 0.25]
        for s in list(sess.values()):
            if s.c and s not in stay:
                if r.random() < 0.5: s.c.drop()
                else: s.c.disconnect()
                s.c = None; s.since = now()
        for s in gone:
            if s.kind == "disc0": s.c.disconnect(0, [("session_expiry", 0)])
            elif s.kind == "expired" or r.random() < 0.5: s.c.drop()
        tick(w, b, T); publish(r.choice([3, 10, 30]))
        sh = Client(w, b, "shp", 4).connect()
        for _ in range(12):
            t = r.choice(["sh/a", "sh/b"]); pay = u(); q = r.choice([1, 2]); sh.pub(t, pay, q); route({"topic": t, "pay": pay, "q": q, "ret": False, "pr": []})
        w.barrier([sh]); sh.disconnect()
        for s in stay: w.barrier([s.c]); judge(s, "live")
        for s in stay: w.barrier([s.c])
        if r.random() < 0.3: b.advance(r.choice([5, 50])); tick(w, b, T)
        tstop = now()
        for s in stay: s.since = tstop
        n = restart(ctx, b, r, w, now); slack[0] += 2 * n
        carry = {s.cid: [x for x in s.c.pubs] for s in stay if member(s)}
        for s in stay: s.c = None
        # ---- messages for restored sessions before they return
        publish(r.choice([0, 3, 8]))
        if r.random() < 0.3:
            n = restart(ctx, b, r, w, now); slack[0] += 2 * n
        # ---- compare
        c = Client(w, b, "ret%d" % rd, 5).connect(); c.sub(("#", 2)); w.barrier([c]); w.barrier([c])
        a = sorted(repr((m["topic"], m["pay"], m["q"], norm(m["pr"]))) for m in ret.values()); g = sorted(repr((x.topic, bytes(x.payload), x.qos, norm(x.props))) for x in c.pubs)
        if a != g: raise Violation("retained messages after a restart: %s" % diff(a, g))
        if not all(x.retain for x in c.pubs): raise Violation("restored retained message without its flag")
        for m in ret.values(): ctx.eval(("retained", m["q"], norm(m["pr"]), len(m["pay"]) > 100)); ctx.count("restored_retained")
        c.disconnect()
        for s in gone:
            if s.kind == "expired":
                while now() < tstop + 40: elapse(w, b, 20, T)
            c = Client(w, b, s.cid, s.ver); c.connect(clean=False, pr=[("session_expiry", 0)] if s.ver == 5 else None); w.barrier([c])
            if c.connack.sp or c.pubs: raise Violation("session of %s (%s) came back after a restart, with %d messages" % (s.cid, s.kind, len(c.pubs)))
            ctx.eval(("gone", s.kind)); c.disconnect()
            if s.ver == 4: c = Client(w, b, s.cid, 4); c.connect(clean=True); c.disconnect()
        out = []
        for s in list(sess.values()):
            rest = left(s)
            if rest is not None and abs(rest) < 20 + slack[0]:
                if rest > 0: b.advance(rest)
                elapse(w, b, 40 + 2 * slack[0], T); rest = left(s)
            dead = rest is not None and rest < 0
            if not dead and r.random() < 0.3:    # only the same username
                o = r.choice([x for x in (None, "alice", "böb", "x") if x != s.user]); c = Client(w, b, s.cid, s.ver); c.send(connect(s.ver, s.cid, False, user=o, pr=[("session_expiry", 100)] if s.ver == 5 else None)); w.until(lambda: c.connack or not c.open, 20, "answer")
                if c.connack and c.connack.rc == 0: raise Violation("restored session of user %r given to user %r" % (s.user, o))
                ctx.eval(("user", s.user, o, s.ver)); c.drop()
            if r.random() < 0.6 or dead or rd == 3:
                open_(s, False, 0 if dead else 1); ctx.eval(("session", s.ver, s.exp, s.user, s.group, dead)); ctx.count("sessions_expired" if dead else "sessions_restored")
                if dead: s.queue = []; s.subs = {}; s.since = None
                out.append(s)
        w.barrier([s.c for s in out]); w.barrier([s.c for s in out])
        for s in out:
            if s.cid in carry: s.c.pubs = [x for x in s.c.pubs]
            judge(s, "queue"); s.since = None
        # ---- subscriptions
        publish(6)
        own = [s for s in out if s.c and not member(s)]
        if own: publish(5, r.choice(own).c)
        w.barrier([s.c for s in out]); w.barrier([s.c for s in out])
        for s in out: judge(s, "probe")
        # ---- shared groups: everything once
        for key, mem in shared.items():
            for s in mem:
                s.seen = getattr(s, "seen", []) + [bytes(x.payload) for x in carry.get(s.cid, []) if not x.dup and x.topic.startswith("sh/") ]
                if s.c: s.seen += [bytes(x.payload) for x in s.c.pubs]; s.c.pubs.clear()
                carry.pop(s.cid, None)
        if all(s.c for v in shared.values() for s in v):
            for key, mem in shared.items():
                d = diff(gsent[key], [p for s in mem for p in s.seen])
                if d: raise Violation("share group %s: %s; members %s" % (key, d, [(s.cid, s.ver, s in stay, len(s.seen)) for s in mem]))
                ctx.eval(("group", key, len(gsent[key]))); ctx.count("restored_group_messages", len(gsent[key])); gsent[key].clear()
                for s in mem: s.seen = []
    w.close()

def qos2(ctx, k):
    """Both sides of every point of the handshake are picked up where they were, with the same packet ids, over restarts."""
    r = ctx.rng; b = ctx.broker(threads=2, conf=dict(BIGQ, expire_sessions_after_seconds=0), storage=True); w = ctx.world(b); u = Uniq("q")
    obs = Client(w, b, "obs", 4); obs.connect(clean=False); obs.sub(("p/#", 2)); R = {}; P = {}
    conn = lambda c: c.connect(clean=False, pr=[("session_expiry", NEVER)] if c.ver == 5 else None)
    for i in range(8):
        c = Client(w, b, "r%d" % i, r.choice([3, 4, 5])); conn(c); c.sub(("q/%d" % i, 2)); R[c.cid] = {"c": c, "ver": c.ver, "st": {}, "i": i, "order": []}
        c = Client(w, b, "p%d" % i, r.choice([3, 4, 5])); c.ack = False; conn(c); P[c.cid] = {"c": c, "ver": c.ver, "open": {}, "i": i}
    pub = Client(w, b, "pub", 5); pub.connect(); sent = []; seen = []
    for rd in range(4):
        # receiving sessions: leave each message in a state of the exchange
        for x in R.values():
            c = x["c"]; c.ack = False; new = [u() for _ in range(r.randint(3, 12))]
            for p in new: pub.pub("q/%d" % x["i"], p, r.choice([1, 2]))
            w.barrier([pub], [c])
            for m in [m for m in c.pubs if bytes(m.payload) in new]:
                a = r.choice(["none", "rec", "all"]); pay = bytes(m.payload)
                if a == "none": x["st"][m.pid] = ("pub", pay, m.qos); x["order"].append(pay)
                elif m.qos == 1: c.do_ack(PUBACK, m.pid)
                else:
                    c.do_ack(PUBREC, m.pid); w.barrier([c])
                    if a == "rec": x["st"][m.pid] = ("rel", pay, 2)
                    else: c.do_ack(PUBCOMP, m.pid)
            w.barrier([c]); c.drop()
        # sending sessions
        for x in P.values():
            c = x["c"]
            for pid in r.sample(range(1, 65536), 4):
                if pid in x["open"]: continue
                pay = u(); t = "p/%d" % x["i"]; c.send(publish(c.ver, t, pay, 2, False, pid)); sent.append(pay); x["open"][pid] = (t, pay)
            w.barrier([c])
            c.drop()
        w.barrier([obs]); pub.disconnect(); seen += [bytes(m.payload) for m in obs.pubs]; obs.drop(); d = diff(sent, seen)
        if d: raise Violation("observer before the restart: %s" % d)
        tick(w, b, 2); restart(ctx, b, r, w, None)
        obs = Client(w, b, "obs", 4); obs.connect(clean=False); pub = Client(w, b, "pub", 5); pub.connect()
        for x in R.values():
            c = Client(w, b, "r%d" % x["i"], x["ver"]); c.ack = False; rels = []; c.on_packet = lambda p, rels=rels: rels.append(p.pid) if p.type == PUBREL else None; conn(c); x["c"] = c
            if c.ver > 3 and not c.connack.sp: raise Violation("session lost")
            w.barrier([c]); w.barrier([c])
            g = {m.pid: ("pub", bytes(m.payload), m.qos) for m in c.pubs}; g.update({p: ("rel",) for p in rels})
            e = {p: v if v[0] == "pub" else ("rel",) for p, v in x["st"].items()}
            if {p: v for p, v in e.items() if v[0] == "pub"} != {p: v for p, v in g.items() if v[0] == "pub"}: raise Violation("unacknowledged messages after a restart: expected %s, got %s" % (sorted(e.items()), sorted(g.items())))
            have = set(rels)
            miss = {p for p, v in e.items() if v[0] == "rel"} - have
            if miss: raise Violation("PUBREL not repeated after a restart for %s (got %s)" % (miss, have))
            if set(rels) - {p for p, v in e.items() if v[0] == "rel"}: raise Violation("unexpected PUBREL %s" % rels)
            if [bytes(m.payload) for m in c.pubs] != x["order"]: raise Violation("unacknowledged messages reordered by a restart: %s, expected %s" % ([bytes(m.payload) for m in c.pubs], x["order"]))
            for p, v in x["st"].items(): ctx.eval(("receiver", x["ver"], v[0], v[2])); ctx.count("restored_exchanges")
            # finish some, keep the others for the next round
            for p, v in list(x["st"].items()):
                if r.random() < 0.5: continue
                if v[0] == "pub":
                    x["order"].remove(v[1])
                    if v[2] == 1: c.do_ack(PUBACK, p)
                    else: c.do_ack(PUBREC, p); w.barrier([c]); c.do_ack(PUBCOMP, p)
                else: c.do_ack(PUBCOMP, p)
                del x["st"][p]
            w.barrier([c]); c.pubs.clear()
        for x in P.values():
            c = Client(w, b, "p%d" % x["i"], x["ver"]); c.ack = False; conn(c); x["c"] = c
            if c.ver > 3 and not c.connack.sp: raise Violation("session lost")
            for pid, (t, pay) in list(x["open"].items()):
                what = r.choice(["dup", "rel", "both", "later"]); c.acks.clear(); rec = []; c.on_packet = lambda p: rec.append((p.type, p.pid))
                if what in ("dup", "both"):
                    c.send(publish(c.ver, t, pay, 2, False, pid, dup=True)); w.barrier([c])
                    if (PUBREC, pid) not in rec: raise Violation("repeated QoS 2 PUBLISH not answered after a restart: %s" % rec)
                if what in ("rel", "both"):
                    c.send(ack(c.ver, PUBREL, pid)); w.barrier([c])
                    if (PUBCOMP, pid) not in rec: raise Violation("PUBREL not answered after a restart: %s" % rec)
                    del x["open"][pid]
                    if r.random() < 0.5: n = u(); c.send(publish(c.ver, t, n, 2, False, pid)); sent.append(n); w.barrier([c]); x["open"][pid] = (t, n)
                ctx.eval(("sender", x["ver"], what)); ctx.count("restored_exchanges")
        w.barrier([obs])
    seen += [bytes(m.payload) for m in obs.pubs]; d = diff(sent, seen)
    if d: raise Violation("QoS 2 messages of senders around restarts: %s" % d)

def wills(ctx, k):
    """Delayed wills of sessions that were (dis)connected at the stop."""
    r = ctx.rng; T = 2; b = ctx.broker(threads=T, conf=dict(BIGQ, expire_sessions_after_seconds=0), storage=True); w = ctx.world(b); t0 = time.monotonic(); now = lambda: time.monotonic() - t0 + b.get("clock") / 1e9; W = {}; n = 0; slack = 3; tstart = 0
    def obs(): c = Client(w, b, "obs", 5); c.connect(clean=False, keepalive=65535, pr=[("session_expiry", NEVER)]); return c
    o = obs(); o.sub(("w/#", 2)); got_ = {}
    def look(final=False):
        w.barrier([o]); w.barrier([o])
        for x in o.pubs:
            pay = bytes(x.payload)
            if pay not in W: raise Violation("unexpected will %r" % x)
            if pay in got_: raise Violation("will %r published twice" % pay)
            got_[pay] = now(); m = W[pay]
            if m["due"] is None: raise Violation("will %r published although %s" % (pay, m["why"]))
            if now() < m["due"] - slack: raise Violation("will %r published %.0f s early (delay %d, expiry %d)" % (pay, m["due"] - now(), m["d"], m["e"]))
            if (x.topic, x.qos, norm(x.props)) != (m["t"], m["q"], norm(m["pr"])): raise Violation("will restored as %r %s, expected %s" % (x, x.props, m))
            ctx.eval(("will", m["d"], m["e"], m["q"], m["how"], norm(m["pr"]))); ctx.count("wills")
        o.pubs.clear()
        for pay, m in W.items():
            if m["due"] is not None and pay not in got_ and now() > max(m["due"] + slack, tstart) + 14: raise Violation("will %r not published %.0f s after it was due (%s)" % (pay, now() - m["due"], m))
    for rd in range(4):
        live = []
        for i in range(8):
            n += 1; d = r.choice([0, 1, 20, 100, 1000, 100000]); e = r.choice([0, 30, 500, 5000, NEVER]); pr = rprops(r); pay = b"will-%d" % n; m = dict(d=d, e=e, q=r.randint(0, 2), t="w/%d" % n, pr=pr, due=None, why="connected"); m["q"] = max(1, m["q"])
            c = Client(w, b, "c%d" % n, 5); c.connect(clean=True, keepalive=65535, user=r.choice([None, "bob"]), pr=[("session_expiry", e)], will=dict(topic=m["t"], payload=pay, qos=m["q"], retain=False, props=[("will_delay", d)] + pr)); W[pay] = m
            m["how"] = r.choice(["drop", "drop", "stay", "stay", "disc", "disc4"]); live.append((c, m))
        w.barrier([c for c, _ in live])
        for c, m in live:
            if m["how"] == "stay": continue
            if m["how"] == "drop": c.drop()
            elif m["how"] == "disc": c.disconnect(); m["why"] = "normal disconnect"; continue
            else: c.send(disconnect(5, 4)); c.wait_closed()
            m["due"] = now() + min(m["d"], m["e"])
        tick(w, b, T); b.advance(r.choice([0, 3, 50])); tick(w, b, T); look()
        for c, m in live:
            if m["how"] == "stay": m["due"] = now() + min(m["d"], m["e"])
        o.drop(); k_ = restart(ctx, b, r, w, now); slack += 2 * k_; tstart = now(); o = obs()
        for s in range(r.choice([1, 3])): a = r.choice([2, 9, 40, 500]); b.advance(a); ctx.step("later", a, now()); tick(w, b, T); tick(w, b, T); look()
        # some return: their will is off
        for c, m in live:
            if r.random() < 0.4 and m["due"] and b"will-" + c.cid[1:].encode() not in got_ and m["due"] > now() + 30 + slack:
                x = Client(w, b, c.cid, 5); x.connect(clean=False, keepalive=65535, user=None, pr=[("session_expiry", 0)], expect=None)
                if x.connack and x.connack.rc == 0: m["due"] = None; m["why"] = "the session was resumed"; x.disconnect(); ctx.count("wills_resumed")
    for s in (40, 500, 5000, 50000, 50100): b.advance(s); tick(w, b, T); tick(w, b, T); tick(w, b, T); look()
    b.advance(20); tick(w, b, T); tick(w, b, T); look()

def many(ctx, k):
    """Large state: nothing lost in the batches."""
    r = ctx.rng; b = ctx.broker(threads=4, conf=dict(BIGQ, expire_sessions_after_seconds=0), storage=True, noise=0); w = ctx.world(b); N = 300; M = 6000
    pub = Client(w, b, "pub", 4); pub.connect()
    for i in range(M): pub.send(publish(4, "r/%d/%d/%d" % (i % 7, i % 31, i), b"r%d" % i, 0, True))
    w.barrier([pub]); S = []; sub = {}
    for i in range(N):
        c = Client(w, b, "c%d" % i, 4); c.connect(clean=False); fs = ["d/%d/%s" % (r.randint(0, 40), r.choice(["x", "+", "#", "y/z"])) for _ in range(8)]; sub[i] = set(fs)
        c.send(subscribe(4, 1, [(f, 1) for f in fs])); S.append(c)
    w.barrier(S)
    for c in S: c.disconnect(wait=False)
    w.until(lambda: not any(c.open for c in S), 60, "disconnects"); tick(w, b, 4); exp = [[] for _ in range(N)]
    for rd in range(2):
        for j in range(300):
            t = "d/%d/%s" % (r.randint(0, 40), r.choice(["x", "q", "y/z", "y"])); pay = b"%d-%d" % (rd, j); pub.pub(t, pay, 1, wait=False)
            for i in range(N): exp[i] += [pay for f in sub[i] if match(f, t)]
        w.barrier([pub]); pub.disconnect(); restart(ctx, b, r, w, None); pub = Client(w, b, "pub", 4); pub.connect()
    c = Client(w, b, "look", 4); c.connect(); c.sub(("r/#", 0)); w.barrier([c]); w.barrier([c])
    d = diff(["r/%d/%d/%d=r%d" % (i % 7, i % 31, i, i) for i in range(M)], ["%s=%s" % (x.topic, bytes(x.payload).decode()) for x in c.pubs])
    if d: raise Violation("retained messages after restarts: %s" % d)
    for i in range(N):
        c = Client(w, b, "c%d" % i, 4); c.connect(clean=False); S[i] = c
        if c.ver > 3 and not c.connack.sp: raise Violation("session %d lost" % i)
    w.barrier(S); w.barrier(S)
    for i in range(N):
        d = diff(exp[i], [bytes(x.payload) for x in S[i].pubs])
        if d: raise Violation("queue of session %d: %s" % (i, d))
        ctx.eval(("many", i), len(exp[i])); ctx.count("restored_messages", len(exp[i]))
    ctx.count("restored_retained", M)

def empty(ctx):
    """Nothing becomes nothing; stopping right after starting loses nothing."""
    b = ctx.broker(threads=2, conf=dict(BIGQ, expire_sessions_after_seconds=0), storage=True); w = ctx.world(b); b.restart(); b.restart()
    c = Client(w, b, "x", 4); c.connect(clean=False); c.sub(("$SYS/broker/#", 1), ("a", 1)); c.disconnect(); tick(w, b, 2)
    for i in range(5): b.restart()
    p = Client(w, b, "p", 5); p.connect(); p.pub("a", "1", 1); p.disconnect()
    for i in range(3): b.restart()
    c = Client(w, b, "x", 4); c.connect(clean=False); w.barrier([c])
    if not c.connack.sp or [x for x in c.pubs if x.topic == "a" and bytes(x.payload) == b"1"] == []: raise Violation("lost in restarts: %d %s" % (c.connack.sp, c.pubs))
    c.pubs.clear(); b.advance(11); tick(w, b, 2); b.advance(11); tick(w, b, 2); w.barrier([c])
    if not any(x.topic.startswith("$SYS/broker/") for x in c.pubs): raise Violation("subscription to $SYS/broker/# lost in restart")
    ctx.eval(("empty", 1), 10); c.disconnect()

def changed(ctx):
    """State saved under one configuration, loaded under another: limits apply, the rest stays."""
    b = ctx.broker(threads=2, conf=dict(BIGQ, expire_sessions_after_seconds=0, max_string_length=65535), storage=True); w = ctx.world(b); p = Client(w, b, "p", 5); p.connect()
    c = Client(w, b, "s", 5); c.connect(pr=[("session_expiry", 100000)]); c.sub(("t/#", 2)); c.drop(); tick(w, b, 2); big = "t/" + "x" * 5000
    p.pub(big, "big", 1); p.pub("t/a", b"y" * 100000, 2); p.pub("t/b", "last", 1); p.disconnect()
    for conf in ({"max_string_length": 200, "max_packet_size": 1000000}, {"retained_messages_mode": "drop"}, {"thread_count": 1}, {"expire_sessions_after_seconds": 200000}):
        b.conf.update(conf); b.restart(); ctx.eval(("changed", str(conf)))
    c = Client(w, b, "s", 5); c.connect(clean=False, pr=[("session_expiry", 100000)]); w.barrier([c])
    if c.ver > 3 and not c.connack.sp: raise Violation("session lost in a change of configuration")
    g = [bytes(x.payload)[:5] for x in c.pubs]
    if g != [b"big", b"yyyyy", b"last"]: raise Violation("queue after a change of configuration: %s" % g)

def limits(ctx):
    """Messages that just fit max_packet_size when published still fit in the state files and come back."""
    for lim in (300, 20000):
        for ver in (3, 4, 5):
            b = ctx.broker(threads=1, conf=dict(BIGQ, expire_sessions_after_seconds=0, max_packet_size=lim, max_string_length=65535), storage=True); w = ctx.world(b); c = Client(w, b, "s", 4); c.connect(clean=False); c.sub(("t/#", 2)); c.drop()
            k = Client(w, b, "k", 5); k.connect(pr=[("session_expiry", NEVER)]); k.sub(("t/#", 2), pr=[("sub_id", 268435455)]); k.drop(); tick(w, b, 1)
            p = Client(w, b, "p", ver); p.connect(); exp = []
            for q in (1, 2):
                for ret in (False, True):
                    t = "t/%d%d" % (q, ret); n = lim - len(publish(ver, t, b"." * (lim - 50), q, ret, 1)) + lim - 50; pay = (b"%d%d" % (q, ret) * lim)[:n]; assert len(publish(ver, t, pay, q, ret, 1)) == lim; p.pub(t, pay, q, ret); exp.append((t, pay, q, ret))
            p.disconnect(); b.restart(); b.restart(); c = Client(w, b, "s", 4); c.connect(clean=False); w.barrier([c])
            g = [(x.topic, bytes(x.payload), x.qos) for x in c.pubs]
            if g != [x[:3] for x in exp]: raise Violation("messages of exactly max_packet_size %d (MQTT %d) after restarts: %s" % (lim, ver, [(x[0], len(x[1])) for x in g]))
            d = Client(w, b, "d", 4); d.connect(); d.sub(("t/#", 2)); w.barrier([d]); g = sorted((x.topic, bytes(x.payload), x.qos) for x in d.pubs)
            if g != sorted(x[:3] for x in exp if x[3]): raise Violation("retained messages of exactly max_packet_size %d (MQTT %d) after restarts: %s" % (lim, ver, [(x[0], len(x[1])) for x in g]))
            ctx.eval(("limits", lim, ver)); ctx.count("restored_messages", len(exp)); w.close(); b.stop()

def far(ctx):
    """State saved around and after 2^31 and 2^32 seconds since the epoch."""
    for target in (1 << 31, (1 << 31) + 100, (1 << 31) + (1 << 24), (1 << 32) - 2, (1 << 32) + 5, 5000000000):
        b = ctx.broker(threads=2, conf=dict(BIGQ, expire_sessions_after_seconds=0), storage=True, start=False); b.advance(target - time.time() - 50); b.start(); w = ctx.world(b)
        c = Client(w, b, "s", 5); c.connect(pr=[("session_expiry", 3000)], will=dict(topic="w", payload=b"will", qos=1, props=[("will_delay", 400)])); c.sub(("t/#", 2)); c.drop()
        o = Client(w, b, "o", 4); o.connect(clean=False); o.sub(("w", 1)); o.disconnect(); tick(w, b, 2)
        p = Client(w, b, "p", 5); p.connect(); p.pub("t/a", b"a", 1, pr=[("expiry", 2000)]); p.pub("t/r", b"r", 1, True, pr=[("expiry", 2000)]); p.disconnect()
        b.advance(50); b.stop(); b.advance(100); b.start(); o = Client(w, b, "o", 4); o.connect(clean=False); w.barrier([o])
        if o.pubs: raise Violation("will came before its delay when saved around %d" % target)
        b.advance(300); tick(w, b, 2); w.until(lambda: o.pubs, 20, "will with delay over a restart around %d s since the epoch" % target)
        n = Client(w, b, "n", 5); n.connect(); n.sub(("t/#", 1)); w.barrier([n]); c = Client(w, b, "s", 5); c.connect(clean=False, pr=[("session_expiry", 3000)]); w.barrier([c])
        if not c.connack.sp: raise Violation("session with 2500 s left is gone after a restart around %d s since the epoch" % target)
        for x, q in ((c, [b"a", b"r"]), (n, [b"r"])):
            if [bytes(y.payload) for y in x.pubs] != q: raise Violation("messages with 1500 s left are gone after a restart around %d s since the epoch: %s" % (target, x.pubs))
            for y in x.pubs:
                if not 1500 <= y.prop("expiry") <= 1560: raise Violation("expiry %s after a restart around %d, expected about 1550" % (y.prop("expiry"), target))
        ctx.eval(("far", target)); w.close(); b.stop()
