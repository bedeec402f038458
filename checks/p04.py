from common import *
RULE = ("subcuts: every sequence of two cut points (before/after each PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP; with and without knowing that the broker processed the last packet) of a subscriber's "
        "handshake x version x drop/take-over, then a clean resume. pubcuts: the same for the publisher's side, with retransmissions. chaos: many sessions, random cuts on both sides, scheduling noise. "
        "A receiver with correct MQTT state counts application-level deliveries. Evaluation = one message's delivery count judged; distinct by (version, QoS, cut sequence, resume kind) or (chaos case, "
        "QoS, redelivered).")

def cases(tier, rng):
    out = []
    for v in (3, 4, 5):
        for q in (1, 2):
            out.append(("subcuts-v%d-q%d" % (v, q), "subcuts", {"ver": v, "qos": q}))
            out.append(("pubcuts-v%d-q%d" % (v, q), "pubcuts", {"ver": v, "qos": q}))
    out += [("pubslow-v%d" % v, "pubslow", {"ver": v}) for v in (3, 4, 5)]
    out += [("refused", "refused"), ("idreuse", "idreuse")]
    out += [("chaos-%d" % i, "chaos", {"k": i, "rounds": 40 if tier == "quick" else 200}) for i in range(20 if tier == "quick" else 200)]
    return out

CUT1 = ["pub-cut", "ack-cut", "ack-sync"]
CUT2 = ["pub-cut", "rec-cut", "rec-sync", "rel-cut", "comp-cut", "comp-sync"]

def subcuts(ctx, ver, qos):
    b = ctx.broker(threads=2, conf=BIGQ); w = ctx.world(b)
    pub = Client(w, b, "pub", 4).connect()
    cuts = CUT1 if qos == 1 else CUT2
    seqs = [(a,) for a in cuts] + [(a, c) for a in cuts for c in cuts] + ([(a, c, d) for a in cuts for c in cuts for d in cuts] if ctx.thorough else [])
    k = 0
    for seq in seqs:
        for take in (False, True):
            for offline in (False, True):
                k += 1; sid = "s%d" % k; st = {"cut": None, "hit": False}
                def policy(point, p):
                    c = st["cut"]; x = {"pub1": {"pub-cut": "cut", "ack-cut": "ackcut", "ack-sync": "ack"}, "pub2": {"pub-cut": "cut", "rec-cut": "ackcut", "rec-sync": "ack"},
                                        "rel": {"rec-sync": "skip", "rel-cut": "cut", "comp-cut": "ackcut", "comp-sync": "ack"}}[point].get(c)
                    if x is None: return "ack"
                    st["hit"] = True
                    if take and x in ("cut", "ackcut"): return "skip" if x == "cut" else "ack"    # the connection stays until it is taken over
                    return x
                R = Receiver("%s v%d %s" % (sid, ver, seq), policy)
                c = R.attach(Client(w, b, sid, ver)).connect(clean=False, pr={"session_expiry": 1000}); c.sub(("t/" + sid, qos))
                pay = sid.encode()
                if offline:
                    c.disconnect(); w.barrier([pub])
                    pub.pub("t/" + sid, pay, qos=2)
                    st["cut"] = seq[0]
                    c = R.attach(Client(w, b, sid, ver)).connect(clean=False, pr={"session_expiry": 1000})
                else:
                    st["cut"] = seq[0]; pub.pub("t/" + sid, pay, qos=2)
                rest = list(seq[1:])
                while True:
                    w.barrier([pub], [c], [c])
                    if c.open and "sync" in (st["cut"] or ""): R.sync(w)
                    if st["cut"] is None: break
                    if not take and c.open: c.drop()
                    st["cut"] = rest.pop(0) if rest else None; st["hit"] = False
                    c = R.attach(Client(w, b, sid, ver)); c.connect(clean=False, pr={"session_expiry": 1000})
                    if ver > 3 and c.connack.sp != 1: raise Violation("session of %s lost" % sid)
                w.barrier([c], [c])
                R.judge({pay: qos}, "cuts %s: " % (seq,)); R.sync(w)
                if R.q2: raise Violation("cuts %s: QoS 2 exchange not finished after a complete connection" % (seq,))
                ctx.eval((ver, qos, seq, take, offline)); ctx.count("cut_sequences"); ctx.count("publish_received", R.pubs); ctx.count("pubrel_received", R.rels)
                # the exchange is over: nothing comes again
                c.disconnect(); c = R.attach(Client(w, b, sid, ver)); c.connect(clean=False, pr={"session_expiry": 1000}); w.barrier([c])
                if qos == 2: R.judge({pay: qos}, "after completion: ")
                c.connack and c.drop()

def pubslow(ctx, ver):
    """A broken connection's PUBLISH is handled slowly by its own thread, while the publisher resumes, resends and finishes on a new one."""
    b = ctx.broker(threads=4, conf=BIGQ); w = ctx.world(b)
    R = Receiver("live"); R.attach(Client(w, b, "live", 5)).connect(); R.c.sub(("u/#", 2)); sent = {}
    for k in range(24 if not ctx.thorough else 200):
        cid = "p%d" % (k % 3); pid = 1 + k % 2; pay = b"%d" % k; take = k % 2
        def con(): c = Client(w, b, cid, ver, ack=False); c.connect(clean=False, pr={"session_expiry": 1000}); return c
        c = con(); b.slow(r"Session::\w*IncomingQoS2|Session::incomingQoS2", 30000, 2)
        for i in range(3):
            c.send(publish(ver, "u/1", pay, 2, pid=pid, dup=i > 0))
            if ctx.rng.random() < 0.3: c.wait_ack(PUBREC, pid)
            if not take: c.drop()
            c = con()
        c.send(publish(ver, "u/1", pay, 2, pid=pid, dup=True))
        if c.wait_ack(PUBREC, pid).rc: raise Violation("PUBREC refuses")
        c.send(ack(ver, PUBREL, pid)); c.wait_ack(PUBCOMP, pid); sent[pay] = 2
        time.sleep(0.15); b.slow(""); w.barrier([c]); c.drop() if k % 3 else c.disconnect(); w.barrier([R.c])
        try: w.until(lambda: pay in R.app, 20, "delivery")
        except Timeout: pass
        R.judge(sent, "slow publisher%s: " % (" (take-over)" if take else "")); ctx.eval((ver, "slow", take)); ctx.count("publisher_sequences")

def pubcuts(ctx, ver, qos):
    """Publisher side: connection breaks after each packet; retransmission on the resumed session."""
    b = ctx.broker(threads=2, conf=BIGQ); w = ctx.world(b)
    subs = {}
    for name, v, q in (("live", 4, 2), ("off", 5, 2), ("five", 5, 2)):
        R = Receiver(name); c = R.attach(Client(w, b, name, v)).connect(clean=False, pr={"session_expiry": 10000}); c.sub(("u/#", q)); subs[name] = R
    subs["off"].c.disconnect()
    # state of the publisher: 'send' (PUBLISH to be sent or resent), 'rel' (PUBREL to be sent or resent)
    points = ["pub-cut", "pub-sync", "rel-cut", "rel-sync", "rel2"] if qos == 2 else ["pub-cut", "pub-sync", "none"]
    seqs = [(a,) for a in points] + [(a, c) for a in points for c in points] + [(a, c, d) for a in points for c in points for d in points if ctx.thorough or hash((a, c, d)) % 3 == 0 or True]
    sent = {}; k = 0
    for seq in seqs:
        for take in (False, True):
            k += 1; pay = b"%d" % k; pid = 1 + k % 3; state = "send"; first = True; topic = "u/%d" % (k % 4)
            cid = "p%d" % (k % 5)
            def con():
                c = Client(w, b, cid, ver, ack=False); c.connect(clean=False, pr={"session_expiry": 1000}); return c
            c = con()
            for pt in list(seq) + [None]:
                if not c.open or pt is None: c = con()
                if state == "done": break
                if state == "send":
                    c.send(publish(ver, topic, pay, qos, pid=pid, dup=not first)); first = False
                    if pt == "pub-cut":
                        if not take: c.drop()
                        else: c = con()
                        continue
                    a = c.wait_ack(PUBACK if qos == 1 else PUBREC, pid)
                    if a.rc: raise Violation("%s with reason 0x%02x" % (NAMES[a.type], a.rc))
                    if qos == 1: state = "done"; break
                    if pt == "pub-sync": # PUBREC lost on its way: the publisher sends PUBLISH again
                        if not take: c.drop()
                        else: c = con()
                        continue
                    state = "rel"
                if state == "rel":
                    c.send(ack(ver, PUBREL, pid))
                    if pt == "rel-cut":
                        if not take: c.drop()
                        else: c = con()
                        continue
                    a = c.wait_ack(PUBCOMP, pid)
                    if pt == "rel-sync":   # PUBCOMP lost: PUBREL again
                        if not take: c.drop()
                        else: c = con()
                        continue
                    if pt == "rel2": c.send(ack(ver, PUBREL, pid)); c.wait_ack(PUBCOMP, pid)
                    state = "done"; break
            if state == "rel": c = con(); c.send(ack(ver, PUBREL, pid)); c.wait_ack(PUBCOMP, pid)
            elif state == "send":
                c.send(publish(ver, topic, pay, qos, pid=pid, dup=True)); c.wait_ack(PUBACK if qos == 1 else PUBREC, pid)
                if qos == 2: c.send(ack(ver, PUBREL, pid)); c.wait_ack(PUBCOMP, pid)
            sent[pay] = qos
            w.barrier([c]); c.disconnect() if k % 2 else c.drop()
            w.barrier([subs["live"].c, subs["five"].c])
            # (a broken connection's last packet may still be under way in its own thread)
            try: w.until(lambda: all(pay in subs[n].app for n in ("live", "five")), 20, "delivery")
            except Timeout: pass
            for n in ("live", "five"): subs[n].judge(sent, "publisher cuts %s%s: " % (seq, " (take-over)" if take else ""))
            ctx.eval((ver, qos, seq, take)); ctx.count("publisher_sequences")
    o = subs["off"]; c = o.attach(Client(w, b, "off", 5)).connect(clean=False, pr={"session_expiry": 10000})
    w.barrier([c], [c], [c]); o.judge(sent, "offline: ")

def refused(ctx):
    """A refused QoS 2 exchange (ACL) ends; its packet id is free again."""
    b = ctx.broker(threads=2, conf={**BIGQ, "mosquitto_acl_file": "{dir}/acl"}, files={"acl": "topic readwrite ok/#\n"}); w = ctx.world(b)
    sub = Client(w, b, "sub", 4).connect(); sub.sub(("#", 2))
    for ver in (3, 4, 5):
        for qos in (1, 2):
            for resume in (False, True):
                p = Client(w, b, "p%d%d%d" % (ver, qos, resume), ver, ack=False).connect(clean=False, pr={"session_expiry": 100})
                for pid in (1, 2, 65535):
                    p.send(publish(ver, "no/1", "refused", qos, pid=pid))
                    a = p.wait_ack(PUBACK if qos == 1 else PUBREC, pid)
                    if ver == 5 and a.rc != 0x87: raise Violation("reason 0x%02x for a publish that is not allowed" % a.rc)
                    if ver < 5 and qos == 2: p.send(ack(ver, PUBREL, pid)); p.wait_ack(PUBCOMP, pid)
                    if resume: p.drop(); p = Client(w, b, p.cid, ver, ack=False).connect(clean=False, pr={"session_expiry": 100})
                    pay = b"%d-%d-%d-%d" % (ver, qos, resume, pid)
                    p.send(publish(ver, "ok/1", pay, qos, pid=pid))
                    a = p.wait_ack(PUBACK if qos == 1 else PUBREC, pid)
                    if a.rc: raise Violation("reason 0x%02x" % a.rc)
                    if qos == 2: p.send(ack(ver, PUBREL, pid)); p.wait_ack(PUBCOMP, pid)
                    w.barrier([p], [sub])
                    n = sum(1 for x in sub.pubs if bytes(x.payload) == pay)
                    if n != 1: raise Violation("v%d QoS %d: message after a refused exchange with the same packet id was delivered %d times" % (ver, qos, n))
                    ctx.eval((ver, qos, resume, pid))
    if any(x.topic.startswith("no/") for x in sub.pubs): raise Violation("refused message delivered")

def idreuse(ctx):
    """Ids are reused after completion, after clean start, and in any order; unfinished ones are not confused."""
    b = ctx.broker(threads=2, conf=BIGQ); w = ctx.world(b); r = ctx.rng
    R = Receiver("sub"); c = R.attach(Client(w, b, "sub", 5)).connect(); c.sub(("#", 2)); sent = {}; n = 0
    for ver in (3, 4, 5):
        for rd in range(20):
            p = Client(w, b, "p", ver, ack=False).connect(clean=rd % 2 == 0, pr={"session_expiry": 100 if rd % 2 else 0})
            if rd % 2 == 0: open_ = {}
            elif rd == 1: open_ = {}
            for i in range(40):
                n += 1; pid = r.randint(1, 6)
                if pid in open_:
                    if r.random() < 0.5: p.send(publish(ver, "t", open_[pid], 2, pid=pid, dup=True)); p.wait_ack(PUBREC, pid)       # retransmission
                    else: p.send(ack(ver, PUBREL, pid)); p.wait_ack(PUBCOMP, pid); del open_[pid]
                elif r.random() < 0.4: pay = b"q1-%d" % n; p.send(publish(ver, "t", pay, 1, pid=pid)); p.wait_ack(PUBACK, pid); sent[pay] = 1
                else: pay = b"q2-%d" % n; p.send(publish(ver, "t", pay, 2, pid=pid)); p.wait_ack(PUBREC, pid); open_[pid] = pay; sent[pay] = 2
                ctx.eval((ver, rd % 2, pid, tuple(sorted(open_))))
            w.barrier([p], [c], [c]); R.judge(sent)
            for pid in list(open_): p.send(ack(ver, PUBREL, pid)); p.wait_ack(PUBCOMP, pid); del open_[pid]
            p.disconnect() if r.random() < 0.5 else p.drop()

def chaos(ctx, k, rounds):
    r = ctx.rng; noise = r.choice([0, 200, 1000])
    b = ctx.broker(threads=r.choice([1, 2, 4]), conf=BIGQ, noise=noise); w = ctx.world(b)
    if r.random() < 0.4: b.slow(r"Session::(clearQosMessage|sendAllPendingQosData|assignActiveConnection|writePacket)|Client::~Client|AckSender::sendNow", 500, 20)
    def policy(point, p):
        x = r.random()
        return "ack" if x < 0.6 else "skip" if x < 0.85 else "cut" if x < 0.92 else "ackcut"
    S = []
    for i in range(5):
        ver = r.choice([3, 4, 5, 5]); R = Receiver("s%d(v%d)" % (i, ver), policy); q = r.choice([1, 2, 2])
        c = R.attach(Client(w, b, "s%d" % i, ver)).connect(clean=False, pr={"session_expiry": 9999}); c.sub(("c/#", q)); S.append((R, ver, q))
    P = []
    for i in range(3):
        ver = r.choice([3, 4, 5]); P.append({"ver": ver, "c": Client(w, b, "p%d" % i, ver, ack=False).connect(clean=False, pr={"session_expiry": 9999}), "open": {}, "n": 0, "free": list(range(1, 200))})
    sent = {}; again = set()
    for R, _, _ in S: R.twice = again
    def answers(p):
        """What the broker acknowledged so far moves the publisher's state."""
        c = p["c"]
        for pid, (q, st, pay, t) in list(p["open"].items()):
            if st == "pub" and c.acks.pop((PUBACK if q == 1 else PUBREC, pid), None):
                if q == 1: del p["open"][pid]; p["free"].append(pid); continue
                p["open"][pid] = (q, "rel", pay, t); c.send(ack(p["ver"], PUBREL, pid))
            elif st == "rel" and c.acks.pop((PUBCOMP, pid), None): del p["open"][pid]; p["free"].append(pid)
    for rd in range(rounds):
        for i, p in enumerate(P):
            answers(p)
            for _ in range(r.randint(0, 6)):
                if not p["free"]: break
                pid = p["free"].pop(0); q = r.choice([1, 2]); p["n"] += 1; pay = b"%d-%d-q%d" % (i, p["n"], q); t = "c/%d" % r.randrange(3)
                sent[pay] = q; p["open"][pid] = (q, "pub", pay, t); p["c"].send(publish(p["ver"], t, pay, q, pid=pid))
            if r.random() < 0.15:
                if r.random() < 0.7: w.settle(r.random() * 0.01); answers(p); p["c"].drop()
                p["c"] = Client(w, b, "p%d" % i, p["ver"], ack=False).connect(clean=False, pr={"session_expiry": 9999})
                if p["ver"] > 3 and not p["c"].connack.sp: raise Violation("publisher session lost")
                for pid, (q, st, pay, t) in p["open"].items():
                    if st == "pub" and q == 1: again.add(pay)      # for the broker this is a second message
                    p["c"].send(publish(p["ver"], t, pay, q, pid=pid, dup=True) if st == "pub" else ack(p["ver"], PUBREL, pid))
        w.pump(0); w.settle(r.choice([0, 0.002, 0.01]))
        for i, (R, ver, q) in enumerate(S):
            if not R.c.open or r.random() < 0.1:
                if r.random() < 0.3: R.c.drop(rst=True)
                if r.random() < 0.7:
                    R.attach(Client(w, b, "s%d" % i, ver)); R.c.connect(clean=False, pr={"session_expiry": 9999}); ctx.count("resumes")
                    if ver > 3 and not R.c.connack.sp: raise Violation("subscriber session lost")
            elif r.random() < 0.3:
                R.sync(w)
    for R, _, _ in S: R.policy = None
    b.slow("")
    for p in P:
        if not p["c"].open: raise Violation("publisher connection closed")
        w.until(lambda: (answers(p), not p["open"])[1], 20, "publisher's handshakes %s" % p["open"])
    w.barrier([p["c"] for p in P])
    for i, (R, ver, q) in enumerate(S):
        if R.c.open: R.c.disconnect()
        R.attach(Client(w, b, "s%d" % i, ver)).connect(clean=False, pr={"session_expiry": 9999})
    w.barrier([R.c for R, _, _ in S], [R.c for R, _, _ in S], [R.c for R, _, _ in S])
    for R, ver, q in S:
        R.judge({p: min(q, x) for p, x in sent.items()})
        for p, x in sent.items(): ctx.eval((k, R.name, x, R.app.count(p) > 1) if x == 1 else (k, R.name, x))
        ctx.count("redelivered_publishes", R.dups); ctx.count("publishes_received", R.pubs)
    ctx.sample({"messages": len(sent), "sessions": [(R.name, R.pubs, R.rels) for R, _, _ in S]})
