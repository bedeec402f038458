from common import *
RULE = ("mix cases: publishers of every version publish unique messages with random payload sizes and bytes, property sets and topic aliases (bound, re-bound, reused) at every QoS; "
        "live, offline-then-resumed and retained deliveries plus wills are received by MQTT 3.1/3.1.1/5 clients with different Topic Alias Maximum and subscription identifiers, and every field of "
        "every copy is compared with what was published. Evaluation = one delivered copy compared; distinct by (path, versions, QoS, property set, alias use, payload length class).")

def cases(tier, rng):
    n = 30 if tier == "quick" else 300
    out = [("mix-%d" % i, "mix", {"k": i, "rounds": 10 if tier == "quick" else 30}) for i in range(n)]
    out += [("alias-%d" % i, "alias", {"k": i}) for i in range(10 if tier == "quick" else 80)]
    out += [("sizes", "sizes"), ("wills", "wills"), ("window", "window")]
    return out

def rprops(r):
    pr = []
    if r.random() < 0.4: pr.append(("payload_format", r.randint(0, 1)))
    if r.random() < 0.4: pr.append(("content_type", r.choice(["", "text/plain", "é" * 40, "x" * 300])))
    if r.random() < 0.4: pr.append(("response_topic", r.choice(["r/t", "/", "réponse/a b", "r" * 200])))
    if r.random() < 0.4: pr.append(("correlation", r.choice([b"", b"\0\xff\x80abc", os.urandom(100)])))
    for _ in range(r.choice([0, 0, 1, 2, 5])): pr.append(("user", (r.choice(["k", "k", "", "kéy"]), r.choice(["v1", "v2", "", "w" * 150]))))
    return pr

CONTENT = ("payload_format", "content_type", "response_topic", "correlation", "user")
def rbytes(r, pr, n):
    return ("é" * n + "x" * (n % 2)).encode()[n - n % 2:] if ("payload_format", 1) in pr else r.randbytes(n)
def content(props):
    # payload format 0 means the same as none
    return sorted([x for x in props if x[0] in CONTENT and x[0] != "user" and x != ("payload_format", 0)]) + [x for x in props if x[0] == "user"]

def compare(ctx, path, p, topic, payload, pubver, pr, subver, sid, qos):
    if p.topic != topic: raise Violation("%s: topic %r delivered as %r" % (path, topic, p.topic))
    if bytes(p.payload) != payload:
        i = next((i for i, (a, b) in enumerate(zip(payload, p.payload)) if a != b), min(len(payload), len(p.payload)))
        raise Violation("%s: payload differs at byte %d (length %d, delivered %d) on %s" % (path, i, len(payload), len(p.payload), topic))
    if subver == 5:
        want = content(pr if pubver == 5 else [])
        if content(p.props) != want: raise Violation("%s: properties published %s, delivered %s" % (path, want, content(p.props)))
        ids = p.propall("sub_id")
        if ids != ([sid] if sid else []): raise Violation("%s: subscription identifiers %s, expected %s (q%d v%d->v%d %s)" % (path, ids, sid, qos, pubver, subver, topic))
        # (the retained store puts its configured maximum age on messages)
        if p.prop("expiry") is not None and "retained" not in path: raise Violation("%s: an expiry interval appeared from nowhere" % path)
    ctx.eval((path, pubver, subver, qos, p.qos, tuple(k for k, _ in pr), p.prop("topic_alias") is not None, len(p.wire_topic) > 0, len(payload).bit_length()))
    ctx.count("copies_" + path)

def mix(ctx, k, rounds):
    r = ctx.rng
    b = ctx.broker(threads=r.choice([1, 2, 4]), conf=BIGQ, noise=r.choice([0, 0, 200])); w = ctx.world(b); u = Uniq("m%d-" % k)
    subs = []
    for i, (ver, am) in enumerate([(3, 0), (4, 0), (5, 0), (5, 2), (5, 65535), (5, 10)]):
        pers = i % 2 == 1 or r.random() < 0.3
        c = Client(w, b, "s%d" % i, ver)
        pr = [("session_expiry", 9999 if pers else 0)] + ([("topic_alias_max", am)] if am else [])
        c.connect(clean=not pers, pr=pr)
        subs.append({"c": c, "ver": ver, "am": am, "pers": pers, "sid": r.choice([None, 1, 200, 268435455]) if ver == 5 else None, "mark": 0})
    for s in subs: s["c"].sub(("f/#", r.choice([1, 2])), pr={"sub_id": s["sid"]} if s["sid"] else None)
    pubs = []
    for i, ver in enumerate([3, 4, 5, 5]):
        c = Client(w, b, "p%d" % i, ver).connect(); pubs.append((c, {}))
    topics = ["f/%s" % rtopic(r, 3) for _ in range(6)]
    retained = {}
    for rd in range(rounds):
        for s in subs:
            if s["pers"] and s["c"].open and r.random() < 0.4: s["c"].drop() if r.random() < 0.5 else s["c"].disconnect()
        w.barrier([c for c, _ in pubs])
        w.settle(0.02)
        w.barrier([s["c"] for s in subs] + [c for c, _ in pubs], [s["c"] for s in subs])
        sent = []; burst = {}
        for _ in range(r.randint(3, 12)):
            c, al = r.choice(pubs); t = r.choice(topics); q = r.randint(0, 2); pr = rprops(r) if c.ver == 5 else []
            pay = u(rbytes(r, pr, r.choice([0, 1, 7, 50, 120, 1000, 5000, 20000]))); rt = r.random() < 0.3
            sent.append((c, t, q, pr, pay, rt)); wt = t; xp = list(pr)
            if c.ver == 5 and r.random() < 0.6:
                known = [a for a, x in al.items() if x == t]
                if known and r.random() < 0.6: xp.append(("topic_alias", r.choice(known))); wt = ""
                else:
                    a = r.choice([1, 2, 3, 65535]); al[a] = t; xp.append(("topic_alias", a))
                r.shuffle(xp) if not any(x[0] == "user" for x in xp) else None
            c.pub(wt, pay, qos=q, retain=rt, pr=xp, wait=False)
            if rt: burst.setdefault(t, {})[c.cid] = (c.ver, t, q, pr, pay)
        w.barrier([c for c, _ in pubs], [s["c"] for s in subs])
        for t, d in burst.items(): retained[t] = list(d.values())      # the last one of each publisher: which of these came last is open
        offl = [s for s in subs if not s["c"].open]
        for s in offl:
            c = Client(w, b, s["c"].cid, s["ver"]); c.connect(clean=False, pr=[("session_expiry", 9999)] + ([("topic_alias_max", s["am"])] if s["am"] else []))
            s["c"] = c; s["mark"] = 0
        for s in subs:
            off = s in offl; exp = {bytes(x[4]): x for x in sent if not (off and x[2] == 0)}
            w.until(lambda: len(s["c"].pubs) - s["mark"] >= len(exp), 20, "%d deliveries to %s" % (len(exp), s["c"].name))
            for p in s["c"].pubs[s["mark"]:]:
                x = exp.pop(bytes(p.payload), None)
                if x is None:
                    near = [y for y in sent if y[4].split(b";")[0] == bytes(p.payload).split(b";")[0]]
                    raise Violation("%s: unknown or repeated payload %r..., published was %r..." % ("queued" if off else "live", bytes(p.payload[:40]), near and near[0][4][:40]))
                compare(ctx, "queued" if off else "live", p, x[1], x[4], x[0].ver, x[3], s["ver"], s["sid"], x[2])
            s["mark"] = len(s["c"].pubs)
        # a fresh subscriber gets the retained ones
        v = r.choice([3, 4, 5]); am = r.choice([0, 3, 100]); sid = r.choice([None, 77]) if v == 5 else None
        c = Client(w, b, "ret%d" % rd, v).connect(pr=[("topic_alias_max", am)] if am else [])
        c.sub(("f/#", r.randint(0, 2)), pr={"sub_id": sid} if sid else None)
        w.until(lambda: len(c.pubs) >= len(retained), 20, "%d retained messages" % len(retained))
        for p in c.pubs:
            if p.topic not in retained: raise Violation("retained message on %r appeared" % p.topic)
            x = next((x for x in retained[p.topic] if x[4] == bytes(p.payload)), retained[p.topic][0])
            compare(ctx, "retained", p, x[1], x[4], x[0], x[3], v, sid, x[2])
        c.disconnect()
    ctx.sample({"last message": repr((sent[-1][0].ver, sent[-1][1], sent[-1][2], sent[-1][3]))[:300]})

def alias(ctx, k):
    """Rebinding aliases in both directions, across reconnects, more topics than aliases."""
    r = ctx.rng; b = ctx.broker(threads=2, conf=BIGQ); w = ctx.world(b)
    am = r.choice([1, 3, 20]); lim = [{}, {"max_packet": 300}][k % 2]
    for con in range(3):
        s = Client(w, b, "s", 5).connect(clean=con == 0, pr={"session_expiry": 1000, "topic_alias_max": am, **lim})
        if con == 0: s.sub(("t/#", 2))
        p = Client(w, b, "p", 5).connect()
        cur = {}; exp = []; n0 = len(s.pubs)
        for i in range(150):
            t = "t/%d" % r.randrange(am * 2 + 3); q = r.randint(0, 2); a = r.randint(1, 4)
            if cur.get(a) and r.random() < 0.5: t = cur[a]; p.pub("", "%d-%d" % (con, i), qos=q, pr=[("topic_alias", a)], wait=False)
            elif r.random() < 0.2: p.pub(t, "%d-%d" % (con, i), qos=q, wait=False)
            elif lim and r.random() < 0.3: p.pub(t, "x" * r.choice([400, 5000]), qos=q, wait=False); ctx.count("oversized"); continue  # dropped: must not count as an introduction of an alias
            else: cur[a] = t; p.pub(t, "%d-%d" % (con, i), qos=q, pr=[("topic_alias", a)], wait=False)
            exp.append((t, ("%d-%d" % (con, i)).encode()))
        w.until(lambda: len(s.pubs) >= len(exp), 20, "deliveries")
        w.barrier([p], [s], [s])
        d = diff(exp, [(x.topic, bytes(x.payload)) for x in s.pubs])
        if d: raise Violation("aliases (maximum %d): %s" % (am, d))
        for x in s.pubs: ctx.eval((am, con, x.topic, x.prop("topic_alias"), bool(x.wire_topic)))
        ctx.count("aliased_copies", sum(1 for x in s.pubs if x.prop("topic_alias"))); ctx.count("copies_without_topic", sum(1 for x in s.pubs if not x.wire_topic))
        s.drop() if con % 2 else s.disconnect(); p.disconnect()
        # messages for the offline session: topics must be sent in full on the next connection before an alias stands for them
        q = Client(w, b, "q", 4).connect()
        q.pub("t/1", "off", qos=1)
        q.disconnect()
        s = Client(w, b, "s", 5).connect(clean=False, pr={"session_expiry": 1000, "topic_alias_max": am})
        w.until(lambda: len(s.pubs) == 1, 20, "queued message")
        if s.pubs[0].topic != "t/1": raise Violation("queued message came with topic %r" % s.pubs[0].topic)
        w.barrier([s]); s.drop(); w.settle(0.02)

def sizes(ctx):
    """Payload and topic lengths around every length-encoding boundary."""
    b = ctx.broker(threads=2, conf=BIGQ); w = ctx.world(b); r = ctx.rng
    subs = [Client(w, b, "s%d" % v, v).connect(pr={"topic_alias_max": 5} if v == 5 else None) for v in (3, 4, 5)]
    for s in subs: s.sub(("#", 2))
    pubs = [Client(w, b, "p%d" % v, v).connect() for v in (3, 4, 5)]
    for p in pubs:
        for q in (0, 1, 2):
            for n in list(range(0, 4)) + list(range(110, 130)) + [255, 256, 1023, 1024, 4096] + list(range(16365, 16386)) + ([] if q else list(range(2097135, 2097152, 2))) + [65535, 65536, 70000]:
                tl = r.choice([1, 5, 100, 3000]) if n < 10000 else 3
                t = "z" * tl; pay = r.randbytes(n)
                p.pub(t, pay, qos=q, wait=False)
                w.until(lambda: all(len(s.pubs) for s in subs), 20, "delivery of %d bytes" % n)
                for s in subs: compare(ctx, "live", s.pubs.pop(), t, pay, p.ver, [], s.ver, None, q)
        w.barrier([p], subs)
        if any(s.pubs for s in subs): raise Violation("more copies than messages")

def wills(ctx):
    b = ctx.broker(threads=2, conf=BIGQ); w = ctx.world(b); r = ctx.rng
    for rd in range(10):
        live = [Client(w, b, "l%d" % v, v).connect() for v in (3, 4, 5)]
        for c in live: c.sub(("will/%d/#" % rd, 2), pr={"sub_id": 9} if c.ver == 5 else None)
        off = {}
        for v in (4, 5):
            c = Client(w, b, "o%d" % v, v).connect(clean=True if v == 5 else False, pr={"session_expiry": 1000}); c.sub(("will/%d/#" % rd, 2), pr={"sub_id": 11} if v == 5 else None); c.disconnect()
        exp = {}
        for v in (3, 4, 5):
            for q in (0, 1, 2):
                for rt in (0, 1):
                    pr = rprops(r) if v == 5 else []
                    t = "will/%d/%d/%d/%d" % (rd, v, q, rt); pay = rbytes(r, pr, r.choice([1, 50, 1000])); exp[t] = (v, q, rt, pr, pay)
                    c = Client(w, b, "w%d%d%d" % (v, q, rt), v).connect(will={"topic": t, "payload": pay, "qos": q, "retain": rt, "props": pr}); c.drop()
        w.until(lambda: all(len(c.pubs) >= len(exp) for c in live), 20, "wills")
        for c in live:
            for p in c.pubs:
                x = exp[p.topic]; compare(ctx, "will", p, p.topic, x[4], x[0], x[3], c.ver, 9 if c.ver == 5 else None, x[1])
            c.disconnect()
        for v in (4, 5):
            c = Client(w, b, "o%d" % v, v).connect(clean=False, pr={"session_expiry": 1000})
            w.until(lambda: len(c.pubs) >= 12, 20, "queued wills")
            for p in c.pubs:
                x = exp[p.topic]; compare(ctx, "will-queued", p, p.topic, x[4], x[0], x[3], v, 11 if v == 5 else None, x[1])
            c.disconnect()
        for v in (4, 5):
            c = Client(w, b, "n%d" % v, v).connect(); c.sub(("will/%d/#" % rd, 2), pr={"sub_id": 13} if v == 5 else None)
            w.until(lambda: len(c.pubs) >= 9, 20, lambda: "retained wills: got %s" % sorted(p.topic for p in c.pubs))
            for p in c.pubs:
                x = exp[p.topic]; compare(ctx, "will-retained", p, p.topic, x[4], x[0], x[3], v, 13 if v == 5 else None, x[1])
            c.disconnect()

def window(ctx):
    """Acknowledging late and out of order: content and identifiers stay right while packets are in flight."""
    b = ctx.broker(threads=2, conf=BIGQ); w = ctx.world(b); r = ctx.rng
    for rm in (2, 4, 9):
        s = Client(w, b, "s", 5, ack=False).connect(pr={"receive_max": rm, "topic_alias_max": 3}); s.sub(("w/+", 1), pr={"sub_id": 5}); s.sub(("w/#", 2), pr={"sub_id": 6})
        p = Client(w, b, "p%d" % rm, 5).connect(); exp = {}; seen = []; held = []; done = 0
        for i in range(40):
            while len(held) + 2 > rm:
                x = held.pop(r.randrange(len(held)))
                if x.qos == 1: s.do_ack(PUBACK, x.pid)
                else:
                    s.do_ack(PUBREC, x.pid); w.until(lambda: any(y.type == PUBREL and y.pid == x.pid for y in s.inbox), 20, "PUBREL"); s.inbox.clear(); s.do_ack(PUBCOMP, x.pid)
            w.barrier([s])
            pr = rprops(r); pay = b"%d-%d;" % (rm, i) + rbytes(r, pr, r.choice([0, 200])); t = "w/%d" % r.randrange(6); exp[pay] = (t, pr); p.pub(t, pay, qos=2, pr=pr)
            w.until(lambda: len(s.pubs) >= done + 2, 20, "two copies")
            for x in s.pubs[done:]:
                held.append(x); sid = x.prop("sub_id"); seen.append((bytes(x.payload), sid))
                t, pr = exp[bytes(x.payload)]
                compare(ctx, "window", x, t, bytes(x.payload), 5, pr, 5, sid, 2)
                if x.qos != (1 if sid == 5 else 2): raise Violation("identifier %s with QoS %d" % (sid, x.qos))
            done = len(s.pubs)
        d = diff([(pay, i) for pay in exp for i in (5, 6)], seen)
        if d: raise Violation("receive maximum %d: %s" % (rm, d))
        s.disconnect(); p.disconnect()
