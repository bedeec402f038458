from common import *
RULE = ("Retained publishes, deletions, retained wills and subscriptions (all versions, QoS, retain handling, retain as published, shared, resumed sessions, expiry with simulated time, periodic purging) run in lockstep with a model of the "
        "retained store; every SUBSCRIBE is answered with exactly the model's matching messages. Concurrent publishers on common topics (with and without deferred setting, with purging and targeted delays) end in a register check: "
        "the value at rest must not be overwritten by a publish that began after its own was acknowledged. Evaluation = one subscribe answer or one topic at rest; distinct by (filter, options, result) / history shape.")
BUDGET = {"quick": 420}

def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    out = [("model-%d" % i, "model", {"k": i, "steps": 170}) for i in range(16 * n)]
    out += [("conc-%d" % i, "concurrent", {"k": i}) for i in range(14 * n)]
    out += [("defer-%d" % i, "defer", {"k": i}) for i in range(3 * n)]
    out += [("race-%d" % i, "race", {"k": i}) for i in range(5 * n)]
    out += [("big-%d" % i, "big", {"k": i}) for i in range(4 * n)]
    out += [("modes-" + m, "modes", {"mode": m}) for m in ("enabled", "enabled_without_persistence", "enabled_without_retaining", "downgrade", "drop", "disconnect_with_error")]
    out += [("tiny-%d" % i, "tiny", {"rm": i}) for i in (1, 2, 3)]
    out += [("limits", "limits")]
    return out

TOP = ["a", "b", "a/b", "a/b/c", "a//c", "/", "/a", "b/", "é/x", "a/b/c/d/e/f", "A", "x y/z"]

def model(ctx, k, steps):
    r = ctx.rng; T = r.choice([1, 2, 3])
    conf = dict(BIGQ, retained_messages_mode=r.choice(["enabled", "enabled", "enabled_without_persistence"]), set_retained_message_defer_timeout=r.choice([0, 0, 500]),
                retained_message_node_lifetime=r.choice([0, 0, 5000]))
    ceil = [4294967295, 4294967295, 500][k % 3]
    if ceil == 500: conf["expire_retained_messages_after_seconds"] = 500
    b = ctx.broker(threads=T, conf=conf, noise=r.choice([0, 200])); w = ctx.world(b); t0 = time.monotonic(); now = lambda: time.monotonic() - t0 + b.get("clock") / 1e9
    store = {}; uq = Uniq(); pubs = [Client(w, b, "p%d" % v, v).connect(clean=v != 4 or True) for v in (3, 4, 5)]; subs = {}; live = Client(w, b, "live", 5).connect(); live.sub(("#", subopt(2, rap=True)))
    def put(t, pay, q, exp, prs):
        if pay: store[t] = (pay, q, now() + min(exp, ceil) if exp is not None or ceil < 4294967295 and (exp := ceil) else None, prs)
        else: store.pop(t, None)
    def expect(f, qos, margin):
        out = []
        for t, (pay, q, due, prs) in list(store.items()):
            if due is not None and abs(now() - due) < 3: margin.append(t); continue
            if due is not None and now() > due: del store[t]; continue
            if match(f, t): out.append((t, pay, min(q, qos)))
        return out
    for st in range(steps):
        x = r.random()
        if x < 0.45:
            p = r.choice(pubs); t = r.choice(TOP) if r.random() < 0.7 else rtopic(r); q = r.randint(0, 2); pay = b"" if r.random() < 0.25 else uq(os.urandom(r.choice([0, 0, 3, 200, 5000]))); exp = r.choice([None, None, 20, 400]) if p.ver == 5 else None
            if t[0] == "$": continue
            ctx.step("retain", p.name, t, q, pay[:8], exp)
            p.pub(t, pay, qos=q, retain=True, pr={"expiry": exp} if exp else None); w.barrier([p], [live]); put(t, pay, q, exp, None)
            if r.random() < 0.2: p.pub(t, "notretained", qos=q); w.barrier([p], [live])
        elif x < 0.53:
            t = r.choice(TOP); q = r.randint(0, 2); pay = b"" if r.random() < 0.2 else uq(b"w"); ret = r.random() < 0.7; v = r.choice([3, 4, 5])
            c = Client(w, b, "will%d" % st, v); c.connect(will=dict(topic=t, payload=pay, qos=q, retain=ret)); how = r.choice(["drop", "disc"]); ctx.step("will", t, q, pay, ret, how)
            drop_and_wait(w, b, c, T, "drop" if how == "drop" else lambda c: c.disconnect()); w.barrier([live])
            if how == "drop" and ret: put(t, pay, q, None, None)
        elif x < 0.9:
            sid = "s%d" % r.randint(0, 3); c = subs.get(sid)
            if c is None or r.random() < 0.3:
                if c: c.disconnect()
                v = r.choice([3, 4, 5, 5]); c = Client(w, b, sid, v); c.connect(clean=r.random() < 0.6, pr={"session_expiry": 10000}); c.filters = {} ; subs[sid] = c
                w.barrier([c])
                c.fresh = bool(c.connack.sp) is False
                # a resumed session may have any filters; find out by clearing
                if not c.fresh or v == 3:
                    for f in getattr(ctx, "allf", {}).get(sid, []): c.unsub(f)
                c.known = set(); w.barrier([c]); c.pubs.clear()
            n = r.choice([1, 1, 1, 2, 4]); fl = []; exp = []; margin = []
            for _ in range(n):
                f = r.choice(TOP + ["#", "+", "+/#", "a/#", "a/+", "+/b", "a/b/c/#", "+/+/+", "/+", "/#", "a/+/c", "#"]) if r.random() < 0.8 else rfilter(r)
                if f[0] == "$" or f in [a for a, _ in fl]: continue
                q = r.randint(0, 2); rh = r.choice([0, 0, 1, 2]) if c.ver == 5 else 0; sh = r.random() < 0.1; o = subopt(q, rap=c.ver == 5 and r.random() < 0.5, rh=rh)
                ff = "$share/g/" + f if sh else f; new = ff not in c.known; c.known.add(ff); fl.append((ff, o))
                if not hasattr(ctx, "allf"): ctx.allf = {}
                ctx.allf.setdefault(sid, set()).add(ff)
                if not sh and (rh == 0 or rh == 1 and new): exp += expect(f, q, margin)
            if not fl: continue
            w.barrier([c]); c.pubs.clear(); ctx.step("subscribe", c.name, "v%d" % c.ver, fl)
            c.sub(*fl); w.barrier([c]); w.barrier([c])
            if conf["set_retained_message_defer_timeout"]: tick(w, b, T)
            if margin: ctx.count("margin"); continue
            got = [(p.topic, bytes(p.payload), p.qos) for p in c.pubs]
            if len(got) != len(exp): w.settle(0.15); w.barrier([c]); got = [(p.topic, bytes(p.payload), p.qos) for p in c.pubs]      # deferred traversal
            d = diff([(t, p[:30], q) for t, p, q in exp], [(t, p[:30], q) for t, p, q in got])
            if d or sorted(exp) != sorted(got): raise Violation("retained messages for %s of %s (v%d): %s\n%s" % (fl, c.name, c.ver, d, "\n".join(ctx.script[-14:])))
            for p in c.pubs:
                if not p.retain: raise Violation("retained message for new subscription without retain flag: %r" % p)
            ctx.eval((tuple(fl), c.ver, len(exp)) if exp else None); ctx.count("retained_delivered", len(exp))
            c.unsub(*[f for f, _ in fl if r.random() < 0.5] or ["none"])
            c.known = {f for f in c.known if f not in ()}; 
            # what was unsubscribed counts as new again: simply forget all that we may have removed
            for f in list(c.known): c.unsub(f)
            c.known = set()
        elif x < 0.96:
            d = r.choice([5, 30, 100, 600]); elapse(w, b, d, T, 300.0)
        else:
            b.advance(r.choice([1900, 4000])); tick(w, b, T); tick(w, b, T); ctx.count("purges")
    ctx.sample({"last": ctx.script[-6:], "store": len(store)})

def concurrent(ctx, k):
    """Publishers on different threads set, delete and recreate; at rest every topic must hold a value that could be the last one."""
    r = ctx.rng; T = 4; defer = [0, 0, 300][k % 3]; b = ctx.broker(threads=T, conf=dict(BIGQ, set_retained_message_defer_timeout=defer, set_retained_message_defer_timeout_spread=10, retained_message_node_lifetime=0), noise=r.choice([0, 300])); w = ctx.world(b)
    b.slow([None, "setRetainedMessage", "addPayload", "expireRetainedMessages", "getRetainedMessages|giveClientRetained"][k % 5], r.choice([100, 1000]), 3)
    P = [Client(w, b, "p%d" % i, r.choice([4, 5])).connect() for i in range(6)]; uq = Uniq()
    for wave in range(6):
        tops = ["w%d/%s" % (r.choice([0, wave]), t) for t in ("a", "b", "a/b", "c/d/e", "c/d/f", "x", "x/y", "x/y/z")]; H = {t: [] for t in tops}; infl = {}
        if r.random() < 0.5: reader = Client(w, b, "r%d" % wave, 5).connect(); reader.sub(("#", 0))
        for st in range(220):
            for p in P:
                if p in infl:
                    t, op, pid, typ = infl[p]
                    if p.acks.get((typ, pid)): p.acks.pop((typ, pid)); op[2] = w.next(); del infl[p]
                if p not in infl and r.random() < 0.8:
                    t = r.choice(tops); pay = b"" if r.random() < 0.4 else uq(); q = r.choice([1, 2]); op = [pay, w.next(), None]; pid = p.pub(t, pay, qos=q, retain=True, wait=False); H[t].append(op); infl[p] = (t, op, pid, PUBACK if q == 1 else PUBREC)
            w.pump(0.002)
            if st % 60 == 30 and not defer: b.advance(4000)          # purge empty nodes meanwhile
        w.until(lambda: all(p.acks.get((infl[p][3], infl[p][2])) for p in infl), 30, "acknowledgements")
        for p in infl: infl[p][1][2] = w.next()
        w.barrier(P); tick(w, b, T)
        if defer: b.advance(2); tick(w, b, T); tick(w, b, T); w.settle(0.02); tick(w, b, T)
        c = Client(w, b, "obs%d" % wave, 5).connect(); c.sub(("#", 0)); w.barrier([c]); w.settle(0.02); w.barrier([c]); have = {}
        for p in c.pubs:
            if p.topic in have: raise Violation("two retained messages for %s" % p.topic)
            have[p.topic] = bytes(p.payload)
        for t, ops in H.items():
            if not ops: continue
            v = have.get(t, b""); cand = [o for o in ops if o[0] == v]; last = max(o[1] for o in ops)
            ok = [o for o in cand if not any(x[1] > o[2] for x in ops)]
            if not ok:
                tail = ops[-6:]
                raise Violation("topic %s holds %r at rest, after (payload, sent, acknowledged): %s (wave %d, defer %d)" % (t, v, tail, wave, defer))
            ctx.eval((t, wave, len(ok), len(ops))); ctx.count("retained_operations", len(ops))
        if k % 2: w.barrier([c]); c.disconnect()
    if defer: ctx.count("defer_cases"); y = Client(w, b, "sys", 5).connect(); y.sub(("$SYS/broker/threads/+/retained_deferrals/count", 0)); b.advance(11); tick(w, b, T); w.barrier([y]); n = {p.topic: int(p.payload) for p in y.pubs}; ctx.count("deferred_sets", sum(n.values()))
    ctx.sample({"defer": defer})

def defer(ctx, k):
    """Setting is deferred because readers hold the tree; publishes of different threads still end with the last one in the store."""
    r = ctx.rng; T = 4; b = ctx.broker(threads=T, conf=dict(BIGQ, set_retained_message_defer_timeout=r.choice([100, 3000]), set_retained_message_defer_timeout_spread=r.choice([1, 50]))); w = ctx.world(b); uq = Uniq()
    P = [Client(w, b, "p%d" % i, r.choice([4, 5])).connect() for i in range(8)]; R = [Client(w, b, "r%d" % i, 4).connect() for i in range(4)]; final = {}
    for i in range(150): P[0].pub("pre/%d" % i, "x", retain=True)
    w.barrier(P); tick(w, b, T); b.slow("giveClientRetainedMessagesRecursively", 60, 1)
    for rd in range(40):
        for c in R: c.pubs.clear(); c.inbox.clear(); c.sub(("pre/#", 0), wait=False)
        t = "new/%d/x" % (rd if r.random() < 0.7 else rd // 3)
        for p in r.sample(P, r.randint(2, 4)):
            final[t] = b"" if r.random() < 0.2 else uq(); p.pub(t, final[t], qos=1, retain=True)
        w.pump()
    w.barrier(R, P); b.slow("", 0)
    for _ in range(4): b.advance(2); tick(w, b, T)
    c = Client(w, b, "obs", 5).connect(); c.sub(("new/#", 0)); w.barrier([c]); w.settle(0.03); w.barrier([c]); have = {p.topic: bytes(p.payload) for p in c.pubs}
    y = Client(w, b, "sys", 5).connect(); y.sub(("$SYS/broker/threads/+/retained_deferrals/count", 0)); b.advance(11); tick(w, b, T); w.barrier([y]); n = {p.topic: int(p.payload) for p in y.pubs}; ctx.count("deferred_sets", sum(n.values()))
    for t, v in final.items():
        if have.get(t, b"") != v: raise Violation("deferred setting: %s holds %r, the last publish (after the others were acknowledged) was %r (%d deferrals)" % (t, have.get(t), v, sum(n.values())))
        ctx.eval(("defer", t))

def race(ctx, k):
    """A subscription racing with a retained publish gets that message, retained or live; at the latest then, the subscriber knows the final value."""
    r = ctx.rng; T = 4; b = ctx.broker(threads=T, conf=BIGQ, noise=300); w = ctx.world(b); b.slow([None, "addSubscription", "giveClientRetainedMessages", "setRetainedMessage", "queuePacketAtSubscribers"][k % 5], 400, 2)
    P = [Client(w, b, "p%d" % i, r.choice([4, 5])).connect() for i in range(3)]; S = [Client(w, b, "s%d" % i, r.choice([4, 5])).connect() for i in range(6)]; uq = Uniq()
    for rd in range(60):
        t = "r%d/x" % rd; v = uq()
        if r.random() < 0.5: P[0].pub(t, "old%d" % rd, qos=1, retain=True)
        for c in S: c.pubs.clear()
        todo = [("s", c) for c in S] + [("p", P[1])]; r.shuffle(todo)
        for kind, c in todo:
            if kind == "s": c.sub((r.choice([t, "r%d/#" % rd, "+/x" if rd == 0 else t]), 1), wait=False)
            else: c.pub(t, v, qos=1, retain=True, wait=False)
        w.barrier(P, S); w.barrier(S)
        for c in S:
            got = [bytes(p.payload) for p in c.pubs if p.topic == t]
            if v not in got: raise Violation("%s, who subscribed while %r was being published retained on %s, got neither the live nor the retained message: %s" % (c.name, v, t, got))
            ctx.eval(("race", len(got), got.index(v), k)); ctx.count("both" if got.count(v) > 1 else "one")
        for c in S: c.unsub(t, "r%d/#" % rd, "+/x")

def big(ctx, k):
    """Many retained messages through a small window and slow readers: each exactly once."""
    r = ctx.rng; b = ctx.broker(threads=3, conf=BIGQ, noise=0); w = ctx.world(b); p = Client(w, b, "p", 4).connect(); want = {}
    for i in range([3000, 8000, 2500, 1500][k % 4]):
        t = "big/%d/%s/%d" % (i % 17, rtopic(r, 2, ["a", "b", "c"]), i); q = r.randint(0, 2); want[t] = (b"v%d" % i, q); p.pub(t, b"v%d" % i, qos=q, retain=True, wait=False)
        if i % 500 == 0: w.barrier([p])
    w.barrier([p], timeout=120)
    for ver, rm, f in ((5, 7, "big/#"), (5, 100, "+/3/#"), (4, None, "#"), (5, 20, "big/+/a/#"), (5, 65535, "big/#")):
        if rm in (7,) and len(want) > 3000: continue
        c = Client(w, b, "c%s" % rm, ver).connect(pr={"receive_max": rm} if rm else None); c.sub((f, 2)); exp = sorted((t, v, q) for t, (v, q) in want.items() if match(f, t))
        if r.random() < 0.5: c.pause(); time.sleep(0.05); c.resume()
        w.until(lambda: len(c.pubs) >= len(exp), 120, lambda: "%d retained messages for a receive maximum of %s (got %d)" % (len(exp), rm, len(c.pubs))); w.settle(0.1); w.barrier([c])
        got = sorted((x.topic, bytes(x.payload), x.qos) for x in c.pubs)
        if got != exp: raise Violation("%d of %d retained messages through a window of %s: %s" % (len(got), len(exp), rm, diff(exp, got)))
        if any(not x.retain for x in c.pubs): raise Violation("retain flag missing")
        ctx.eval(("big", ver, rm, f, len(exp))); ctx.count("retained_delivered", len(exp)); c.disconnect()

def tiny(ctx, rm):
    """Windows of one to three, hundreds of rounds, nodes with messages and children: each exactly once."""
    r = ctx.rng; b = ctx.broker(threads=2, conf=BIGQ, noise=0); w = ctx.world(b); p = Client(w, b, "p", 4).connect(); want = {}; n = 0
    while len(want) < 140 * rm:
        for t in ("t/%d" % n, "t/%d/a" % n, "t/%d/b" % n, "t/%d/b/c" % n):
            if r.random() < 0.7: want[t] = (b"%d" % len(want), r.choice((1, 2))); p.pub(t, want[t][0], qos=want[t][1], retain=True, wait=False)
        n += 1
    w.barrier([p], timeout=60); cs = []
    for k, f in enumerate(("t/#", "t/+", "+/+/b", "#", "t/+/#")):
        c = Client(w, b, "c%d" % k, 5).connect(pr={"receive_max": rm}); c.sub((f, 2)); cs.append((c, f, sorted((t, v, q) for t, (v, q) in want.items() if match(f, t))))
    for c, f, exp in cs:
        w.until(lambda: len(c.pubs) >= len(exp), 60, lambda: "%d retained messages matching %s for a receive maximum of %s (got %d)" % (len(exp), f, rm, len(c.pubs)))
    w.settle(0.2); w.barrier([c for c, _, _ in cs])
    for c, f, exp in cs:
        got = sorted((x.topic, bytes(x.payload), x.qos) for x in c.pubs)
        if got != exp: raise Violation("%d of %d retained messages matching %s through a window of %s: %s" % (len(got), len(exp), f, rm, diff(exp, got)))
        ctx.eval(("tiny", rm, f, len(exp))); ctx.count("retained_delivered", len(exp))

def modes(ctx, mode):
    r = ctx.rng; b = ctx.broker(threads=2, conf=dict(BIGQ, retained_messages_mode=mode)); w = ctx.world(b); keeps = mode in ("enabled", "enabled_without_persistence")
    live = Client(w, b, "live", 5).connect(); live.sub(("#", subopt(1, rap=True)))
    for ver in (3, 4, 5):
        for q in (0, 1, 2):
            p = Client(w, b, "p%d%d" % (ver, q), ver).connect()
            if ver == 5:
                ra = p.connack.prop("retain_available")
                if (ra == 0) == keeps: raise Violation("Retain Available %s announced in mode %s" % (ra, mode))
            t = "m/%d/%d" % (ver, q); p.send(publish(ver, t, b"v", q, True, 5 if q else None)); w.settle(0.01)
            if mode == "disconnect_with_error":
                w.until(lambda: not p.open, 10, "disconnection of a client that sets a retained message")
                if ver == 5 and (not p.disc or p.disc.rc != 0x9A): raise Violation("DISCONNECT %r, expected 0x9A (retain not supported)" % p.disc)
            else: w.barrier([p])
            w.barrier([live]); got = [(x.topic, bytes(x.payload), x.retain) for x in live.pubs if x.topic == t]
            exp = [] if mode in ("drop", "disconnect_with_error") else [(t, b"v", mode != "downgrade")]
            if got != exp: raise Violation("mode %s, v%d QoS %d: live subscriber got %s, expected %s" % (mode, ver, q, got, exp))
            for v2 in (4, 5):
                c = Client(w, b, "c%d%d%d" % (ver, q, v2), v2).connect(); c.sub((t, 2)); w.barrier([c])
                if [bytes(x.payload) for x in c.pubs] != ([b"v"] if keeps else []): raise Violation("mode %s: new subscriber got %s" % (mode, c.pubs))
                ctx.eval((mode, ver, q, v2)); c.disconnect()
            # a retained will
            c = Client(w, b, "w%d%d" % (ver, q), ver); c.connect(will=dict(topic="w/%d/%d" % (ver, q), payload="will", qos=q, retain=True), expect=None)
            if mode == "disconnect_with_error":
                w.until(lambda: not c.open or (c.connack and c.connack.rc == 0), 20, "refusal of a retained will")
                if c.connected: raise Violation("retained will accepted in mode %s" % mode)
                continue
            drop_and_wait(w, b, c, 2); o = Client(w, b, "o", 5).connect(); o.sub(("w/%d/%d" % (ver, q), 0)); w.barrier([o])
            if (len(o.pubs) == 1) != keeps: raise Violation("mode %s: retained will gives %s" % (mode, o.pubs))
            o.disconnect()

def limits(ctx):
    """retained_message_max_payload_size and the node limit refuse only what they say; the live message is delivered in any case."""
    b = ctx.broker(threads=2, conf=dict(BIGQ, retained_message_max_payload_size=100)); w = ctx.world(b); live = Client(w, b, "live", 4).connect(); live.sub(("#", 1)); p = Client(w, b, "p", 5).connect()
    def stored(t):
        c = Client(w, b, "o", 5).connect(); c.sub((t, 0)); w.barrier([c]); v = [bytes(x.payload) for x in c.pubs]; c.disconnect(); return v
    for n, ok in ((1, True), (99, True), (100, True), (101, False), (5000, False)):
        t = "size/%d" % n; p.pub(t, b"x" * n, qos=1, retain=True); w.barrier([live])
        if [len(x.payload) for x in live.pubs if x.topic == t] != [n]: raise Violation("live message of %d bytes not delivered" % n)
        if (stored(t) != []) != ok: raise Violation("payload of %d bytes %s stored with retained_message_max_payload_size 100" % (n, "not" if ok else "was"))
        ctx.eval(("size", n))
