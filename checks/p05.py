from common import *
RULE = ("Clients with Receive Maximum 1..65535 acknowledge late, in random order, partially (QoS 2), twice and for unknown ids, while more messages than fit are published; online monitors check the number of "
        "unacknowledged PUBLISH packets, that ids are never 0 and never reused while in flight (also past 65535 messages, on resumes and with PUBRELs outstanding). After everything is acknowledged exactly "
        "Receive Maximum new messages must arrive (no leaked and no invented slots). Evaluation = one round; distinct by (version, receive maximum, persistence, QoS mix, acknowledgement pattern, round kind).")

def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    out = [("window-%d" % i, "window", {"k": i, "rounds": 40}) for i in range(16 * n)]
    out += [("spurious-%d" % i, "spurious", {"k": i}) for i in range(6 * n)]
    out += [("resume-%d" % i, "resume", {"k": i, "rounds": 40}) for i in range(8 * n)]
    out += [("wrap-%d" % q, "wrap", {"qos": q}) for q in (1, 2)]
    out += [("exhaust", "exhaust"), ("oversized", "oversized"), ("expired", "expired"), ("refusedread", "refusedread")]
    out += [("threads-%d" % i, "threads", {"k": i}) for i in range(4 * n)]
    return out

def finish(w, s, pid, q, half=False):
    """Complete (or, for QoS 2, only begin) the exchange of a packet."""
    if q == 1: s.do_ack(PUBACK, pid); return True
    if pid not in s.rec: s.do_ack(PUBREC, pid); s.rec.add(pid)
    if half: return False
    w.until(lambda: pid in s.relled, 20, "PUBREL %d" % pid); s.relled.discard(pid); s.rec.discard(pid)
    s.do_ack(PUBCOMP, pid); return True

def track(s):
    s.rec = set(); s.relled = set()
    def f(p):
        if p.type == PUBREL: s.relled.add(p.pid)
    s.on_packet = f
    return s

def probe(ctx, w, s, pub, topic, rm, what, qos, cap=1200):
    """Everything is acknowledged: exactly rm messages must pass now, unacknowledged."""
    if s.unacked: raise Exception("probe with packets in flight")
    n = min(rm, cap); before = len(s.pubs)
    for i in range(n + 3): pub.pub(topic, "probe%d" % i, qos=qos, wait=False)
    w.barrier([pub], [s])
    got = len(s.pubs) - before
    want = n + 3 if rm > cap else n
    if got < want: raise Violation("%s: only %d of %d slots are left (receive maximum %d)" % (what, got, want, rm))
    if got > want: raise Violation("%s: %d messages in a window of %d" % (what, got, rm))
    for pid, q in list(s.unacked.items()): finish(w, s, pid, q)
    w.barrier([s])

def window(ctx, k, rounds):
    r = ctx.rng; b = ctx.broker(threads=r.choice([1, 2, 3]), conf=BIGQ, noise=r.choice([0, 300])); w = ctx.world(b)
    rm = [1, 2, 3, 4, 5, 10, 17, 60, 127, 128, 255, 256, 511, 1000, 65535, None][k % 16]; ver = 5 if rm else r.choice([3, 4]); pers = r.random() < 0.5
    s = track(Client(w, b, "s", ver, ack=False)); s.connect(clean=not pers, pr={"session_expiry": 1000 if pers else 0, **({"receive_max": rm} if rm else {})})
    lim = rm or 65535; s.sub(("t", 2)); pubs = [Client(w, b, "p%d" % i, 4).connect() for i in range(2)]
    for rd in range(rounds):
        n = r.choice([1, lim, lim + 1, 2 * lim, r.randint(1, 50)]); n = min(n, 300); pat = r.choice(["lifo", "fifo", "random", "half"]); qs = r.choice([(1,), (2,), (1, 2)])
        for i in range(n): r.choice(pubs).pub("t", "m%d" % i, qos=r.choice(qs), wait=False)
        w.barrier(pubs, [s])
        u = list(s.unacked.items())
        if pat == "lifo": u.reverse()
        elif pat != "fifo": r.shuffle(u)
        if pat == "half":
            for pid, q in u[:len(u) // 2]: finish(w, s, pid, q, half=True)
            w.barrier([s])
            for i in range(5): pubs[0].pub("t", "x", qos=2, wait=False)
            w.barrier(pubs, [s]); u = u[:r.randint(0, len(u))]
        for pid, q in u: finish(w, s, pid, q)
        w.barrier([s])
        if rd % 4 == 3:
            for pid, q in list(s.unacked.items()): finish(w, s, pid, q)
            w.barrier([s])
            probe(ctx, w, s, pubs[0], "t", lim, "after round %d (%s, v%d)" % (rd, pat, ver), r.choice(qs), cap=300)
        ctx.eval((ver, rm, pers, qs, pat, min(n, lim) == n)); ctx.peak("in_flight", s.max_seen_inflight)
    ctx.count("publishes", len(s.pubs))
    ctx.sample({"receive_maximum": rm, "most in flight": s.max_seen_inflight, "publishes": len(s.pubs)})

def spurious(ctx, k):
    """Acknowledgements nobody asked for give no slots and no ids back."""
    r = ctx.rng; b = ctx.broker(threads=2, conf=BIGQ); w = ctx.world(b); p = Client(w, b, "p", 4).connect()
    for pers in (False, True):
        for rm in (1, 3, 20):
            s = track(Client(w, b, "s%d%d" % (pers, rm), 5, ack=False)); s.connect(clean=True, pr={"session_expiry": 100 if pers else 0, "receive_max": rm}); s.sub(("t/%d%d" % (pers, rm), 2)); t = "t/%d%d" % (pers, rm)
            for rd in range(8):
                for i in range(rm): p.pub(t, "a", qos=r.choice([1, 2]), wait=False)
                w.barrier([p], [s]); held = dict(s.unacked); kinds = []
                for _ in range(r.randint(1, 12)):
                    pid = r.choice([x for x in range(1, 200) if x not in held] + [30000, 65535]); x = r.choice([PUBACK, PUBREC, PUBCOMP]); kinds.append(x)
                    s.send(ack(5, x, pid, r.choice([0, 0, 0x80 if x == PUBREC else 0])))
                w.barrier([s])
                if not s.open: raise Violation("closed after a stray acknowledgement")
                s.relled.clear()
                for i in range(rm + 5): p.pub(t, "b", qos=r.choice([1, 2]), wait=False)   # the monitor fails if one more arrives
                w.barrier([p], [s])
                if r.random() < 0.5:
                    # double acknowledgement of one, then exactly one slot
                    pid, q = r.choice(list(s.unacked.items())); finish(w, s, pid, q); w.barrier([s])
                    s.send(ack(5, PUBACK if q == 1 else PUBCOMP, pid)); s.send(ack(5, PUBACK if q == 1 else PUBCOMP, pid)); w.barrier([s]); n = len(s.pubs)
                    for i in range(3): p.pub(t, "c", qos=1, wait=False)
                    w.barrier([p], [s])
                    if len(s.pubs) - n != 1: raise Violation("receive maximum %d: acknowledging one message twice let %d new ones through" % (rm, len(s.pubs) - n))
                for pid, q in list(s.unacked.items()): finish(w, s, pid, q)
                w.barrier([s]); probe(ctx, w, s, p, t, rm, "after stray acknowledgements %s" % sorted(set(NAMES[x] for x in kinds)), 1)
                ctx.eval((pers, rm, tuple(sorted(kinds))))

def resume(ctx, k, rounds):
    """Unfinished exchanges over reconnects: ids in use are not given to new messages."""
    r = ctx.rng; b = ctx.broker(threads=2, conf=BIGQ, noise=r.choice([0, 300])); w = ctx.world(b); p = Client(w, b, "p", 5).connect(); ver = r.choice([4, 5, 5])
    inuse = {}       # pid -> (payload, state)
    s = None; n = 0
    for rd in range(rounds):
        rm = r.choice([5, 20, 100, 1000])
        if s is not None: s.drop() if r.random() < 0.7 else s.disconnect()
        w.settle(0.002)
        s = track(Client(w, b, "s", ver, ack=False)); new = []
        def onpub(x):
            pay = bytes(x.payload)
            if x.pid in inuse:
                if inuse[x.pid][0] != pay: raise Violation("id %d of the unfinished exchange %s was given to %r" % (x.pid, inuse[x.pid], pay))
                if inuse[x.pid][1] == "rec": raise Violation("PUBLISH %r again although its PUBREC was processed" % pay)
            elif pay in known: raise Violation("%r now has another id %d" % (pay, x.pid))
            inuse[x.pid] = (pay, "pub"); known.add(pay)
        known = {v[0] for v in inuse.values()}
        s.on_publish = onpub
        s.connect(clean=rd == 0 and ver == 5, pr={"session_expiry": 1000, **({"receive_max": rm} if ver == 5 else {})})
        if rd == 0: s.sub(("t", 2))
        w.barrier([s]); left = set(inuse) - set(s.unacked)
        for pid in left:
            if inuse[pid][1] == "rec" and pid not in s.relled: raise Violation("no PUBREL %d after the resume" % pid)
        # what did not fit the new window was dropped
        for pid in left:
            if inuse[pid][1] == "pub": del inuse[pid]
        for i in range(r.randint(0, 30)): n += 1; p.pub("t", "m%d" % n, qos=r.choice([1, 2, 2]), wait=False)
        w.barrier([p], [s])
        for pid in list(inuse):
            pay, st = inuse[pid]; x = r.random()
            if st == "pub" and pid in s.unacked:
                if s.unacked[pid] == 1:
                    if x < 0.5: s.do_ack(PUBACK, pid); w.barrier([s]) if x < 0.1 else None; del inuse[pid]; s.gone = True
                elif x < 0.6: s.do_ack(PUBREC, pid); inuse[pid] = (pay, "rec")
            elif st == "rec" and x < 0.4:
                w.until(lambda: pid in s.relled, 20, "PUBREL"); s.do_ack(PUBCOMP, pid); del inuse[pid]
        w.barrier([s])
        for pid in inuse:
            if inuse[pid][1] == "rec" and pid not in s.relled: raise Violation("no PUBREL %d" % pid)
        for i in range(r.randint(0, 30)): n += 1; p.pub("t", "m%d" % n, qos=r.choice([1, 2]), wait=False)
        w.barrier([p], [s])
        ctx.eval((ver, rm, len(inuse) // 8, sum(1 for x in inuse.values() if x[1] == "rec") // 4)); ctx.peak("unfinished_over_resumes", len(inuse))

def wrap(ctx, qos):
    """Past 65535 messages with some exchanges never finished."""
    b = ctx.broker(threads=2, conf=BIGQ); w = ctx.world(b); p = Client(w, b, "p", 4).connect()
    s = track(Client(w, b, "s", 5, ack=False)); s.connect(pr={"receive_max": 2000, "session_expiry": 50}); s.sub(("t", 2)); held = set(); seen = set(); n = 0; total = 66500 if qos == 1 else 66500
    for i in range(25): p.pub("t", "h", qos=1 + i % 2, wait=False)
    w.barrier([p], [s])
    for pid, q in list(s.unacked.items()):
        held.add(pid)
        if q == 2 and pid % 3 == 0: s.do_ack(PUBREC, pid)
    w.barrier([s])
    while n < total:
        for i in range(1000): p.pub("t", "x", qos=qos, wait=False)
        n += 1000; w.barrier([p], [s])
        out = b""; got = [x for x in s.unacked if x not in held]; seen.update(got)
        if qos == 1: s.send(b"".join(ack(5, PUBACK, x) for x in got))
        else: s.send(b"".join(ack(5, PUBREC, x) for x in got)); s.send(b"".join(ack(5, PUBCOMP, x) for x in got))
        for x in got: s.unacked.pop(x)
        w.barrier([s])
        if len(got) != 1000: raise Violation("%d of 1000 messages got through after %d messages" % (len(got), n))
        s.inbox.clear(); s.pubs.clear(); p.acks.clear(); p.inbox.clear()
    if len(seen) < 65535 - len(held): raise Violation("only %d different ids were used" % len(seen))
    if seen & held: raise Violation("ids in use were used again")
    ctx.eval(("wrap", qos), n=n); ctx.count("messages_past_wrap", n); ctx.count("ids_seen", len(seen))
    held_now = set(s.unacked)
    if held_now != held: raise Violation("held ids changed")

def exhaust(ctx):
    """All 65535 ids in unfinished exchanges, then more messages: the broker must keep running."""
    b = ctx.broker(threads=2, conf=BIGQ); w = ctx.world(b); p = Client(w, b, "p", 4).connect()
    s = Client(w, b, "s", 5, ack=False).connect(clean=False, pr={"receive_max": 65535, "session_expiry": 50}); s.sub(("t", 2)); tot = 0
    while tot < 65535:
        k = min(2000, 65535 - tot); tot += k
        for i in range(k): p.pub("t", "x", qos=2, wait=False)
        w.barrier([p], [s]); s.send(b"".join(ack(5, PUBREC, x) for x in list(s.unacked))); s.unacked.clear(); w.barrier([s]); s.inbox.clear(); s.pubs.clear(); p.inbox.clear(); p.acks.clear()
    s.drop(); w.settle(0.05)
    s = track(Client(w, b, "s", 5, ack=False)); s.connect(clean=False, pr={"receive_max": 65535, "session_expiry": 50}); w.barrier([s]); w.until(lambda: len(s.relled) == 65535, 60, "65535 PUBRELs")
    for i in range(3): p.pub("t", "more", qos=1, wait=False)
    w.barrier([p], [s])
    if s.pubs: raise Violation("message with id %d although all ids are in use" % s.pubs[0].pid)
    for x in list(s.relled)[:5]: s.do_ack(PUBCOMP, x)
    w.barrier([s]); s.inbox.clear()
    for i in range(5): p.pub("t", "again", qos=1, wait=False)
    w.barrier([p], [s])
    if len(s.pubs) != 5: raise Violation("%d of 5 messages after five ids became free" % len(s.pubs))
    ctx.eval("exhausted", n=65535)

def oversized(ctx):
    b = ctx.broker(threads=2, conf=BIGQ); w = ctx.world(b); p = Client(w, b, "p", 5).connect(); r = ctx.rng
    for pers in (False, True):
        for rm in (1, 4, 30):
            for offl in (False, True):
                if offl and not pers: continue
                t = "t/%d%d%d" % (pers, rm, offl)
                pr = {"receive_max": rm, "session_expiry": 100 if pers else 0, "max_packet": 300}
                s = track(Client(w, b, t, 5, ack=False)); s.connect(clean=True, pr=pr); s.sub((t, 2))
                for rd in range(6):
                    if offl:
                        s.disconnect(); w.settle(0.005); w.barrier([p])
                    for i in range(rm): p.pub(t, b"B" * r.choice([300, 290, 5000]), qos=r.choice([1, 2]), wait=False)
                    w.barrier([p])
                    if offl: s = track(Client(w, b, t, 5, ack=False)); s.connect(clean=False, pr=pr)
                    w.barrier([s])
                    if s.pubs and any(len(x.payload) > 295 for x in s.pubs): raise Violation("oversized message sent")
                    for pid, q in list(s.unacked.items()): finish(w, s, pid, q)
                    w.barrier([s])
                    probe(ctx, w, s, p, t, rm, "after oversized messages%s" % (" in the queue" if offl else ""), r.choice([1, 2])); ctx.eval((pers, rm, offl, rd))

def expired(ctx):
    b = ctx.broker(threads=2, conf=BIGQ); w = ctx.world(b); p = Client(w, b, "p", 5).connect(); r = ctx.rng
    for rm in (1, 4, 30):
        t = "t/%d" % rm; pr = {"receive_max": rm, "session_expiry": 10000}
        s = track(Client(w, b, t, 5, ack=False)); s.connect(clean=True, pr=pr); s.sub((t, 2))
        for rd in range(6):
            if rd % 2 == 0: s.disconnect()
            w.barrier([p])
            for i in range(rm): p.pub(t, "e%d" % i, qos=r.choice([1, 2]), pr={"expiry": 2}, wait=False)
            w.barrier([p])
            if rd % 2: w.barrier([s]); s.drop(); w.settle(0.01)
            b.advance(5)
            if rd % 3 == 0:
                # new messages for the offline session take the place of the expired ones
                for i in range(rm): p.pub(t, "n%d" % i, qos=1, wait=False)
                w.barrier([p])
            s = track(Client(w, b, t, 5, ack=False)); s.connect(clean=False, pr=pr); w.barrier([s]); got = [bytes(x.payload)[:1] for x in s.pubs]
            if rd % 2 == 0 and b"e" in got: raise Violation("expired message delivered")
            if rd % 3 == 0 and got.count(b"n") != rm: raise Violation("%d of %d messages queued after the others expired" % (got.count(b"n"), rm))
            for pid, q in list(s.unacked.items()): finish(w, s, pid, q)
            w.barrier([s]); probe(ctx, w, s, p, t, rm, "after expired messages (round %d)" % rd, r.choice([1, 2])); ctx.eval((rm, rd))

def refusedread(ctx):
    """PUBREC with an error code ends the exchange and frees its slot."""
    b = ctx.broker(threads=2, conf=BIGQ); w = ctx.world(b); p = Client(w, b, "p", 5).connect()
    for pers in (False, True):
        for rm in (1, 5):
            t = "t/%d%d" % (pers, rm)
            s = track(Client(w, b, t, 5, ack=False)); s.connect(pr={"receive_max": rm, "session_expiry": 100 if pers else 0}); s.sub((t, 2))
            for rc in (0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99):
                for i in range(rm): p.pub(t, "x", qos=2, wait=False)
                w.barrier([p], [s])
                for pid in list(s.unacked): s.do_ack(PUBREC, pid, rc)
                w.barrier([s])
                if s.relled: raise Violation("PUBREL after PUBREC with 0x%02x" % rc)
                probe(ctx, w, s, p, t, rm, "after PUBREC 0x%02x" % rc, 2); s.relled.clear(); ctx.eval((pers, rm, rc))

def threads(ctx, k):
    """Several publishers on several threads race for the window of automatically acknowledging subscribers."""
    r = ctx.rng; b = ctx.broker(threads=4, conf=BIGQ, noise=r.choice([100, 1000])); w = ctx.world(b)
    b.slow(r"Session::(writePacket|clearQosMessage|removeOutgoingQoS2MessageId|QoSData::)", 200, 30)
    subs = [(Client(w, b, "s%d" % i, 5).connect(clean=True, pr={"receive_max": rm, "session_expiry": 100 if i % 2 else 0}), rm) for i, rm in enumerate((1, 2, 7, 50))]
    for s, _ in subs: s.sub(("t/#", 2))
    P = [Client(w, b, "p%d" % i, 5).connect() for i in range(6)]
    for rd in range(100):
        for p in P:
            for i in range(r.randint(0, 20)): p.pub("t/%d" % i, "x", qos=r.choice([1, 2]), wait=False)
        w.pump(0.002)
    w.barrier(P, [s for s, _ in subs], [s for s, _ in subs], [s for s, _ in subs])
    b.slow("")
    for s, rm in subs:
        w.until(lambda: not s.unacked, 20, "handshakes to finish"); w.barrier([s])
        s.ack = False; track(s); probe(ctx, w, s, P[0], "t/x", rm, "after concurrent publishing", 1); s.ack = True
        ctx.eval((k, rm)); ctx.count("publishes", len(s.pubs)); ctx.peak("in_flight", s.max_seen_inflight)
        for c, _ in subs:
            if c is not s: w.barrier([c])
