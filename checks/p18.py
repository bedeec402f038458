from common import *
import hashlib, re
RULE = ("Message sizes are swept around every announced limit: Maximum Packet Size of many subscribers (live, queued, retained, wills, aliases), queue count and byte limits of offline sessions, max_packet_size, max_string_length and max_qos inbound. Clients that stop reading are flooded while the broker's memory, a canary pair's round trips and the stream they read afterwards are judged. "
        "Oracle: a message is delivered exactly if its independently computed encoded size fits; an offline queue is a prefix of what was accepted, within the limits. Evaluation = one message judged at one client; distinct by sizes, limits and path.")
BUDGET = {"quick": 420}
JOBS = 6

def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    out = [("sizes-%d" % i, "sizes") for i in range(6 * n)] + [("queue-%d" % i, "queue") for i in range(16 * n)] + [("maxqos", "maxqos"), ("strings", "strings"), ("inbound", "inbound")]
    out += [("stall-%s-%d-%d" % (how, q, t), "stall", {"how": how, "qos": q, "threads": t}) for how, q, t in (("tcp", 0, 1), ("tcp", 0, 3), ("ws", 0, 2), ("tls", 0, 2), ("tcp", 1, 2), ("tcp", 2, 1), ("mixed", 0, 2))]
    out += [("slowdrip-%d" % i, "drip") for i in range(2 * n)]
    return out

def plen(c, topic, payload, q, pr, sid, alias=None):
    """Size of the PUBLISH that carries this message to client c. alias: None or ('first'|'next')."""
    out = [p for p in pr if p[0] not in (35,)] if c.ver == 5 else []
    if c.ver == 5 and sid: out = out + [(11, sid)]
    if alias: out = out + [(35, 1)]
    return len(publish(c.ver, "" if alias == "next" else topic, payload, q, False, 1, pr=out))

def sizes(ctx):
    r = ctx.rng; b = ctx.broker(threads=3, storage=r.random() < 0.5, conf=dict(BIGQ, max_outgoing_topic_alias_value=20)); w = ctx.world(b); u = Uniq()
    p = Client(w, b, "pub", 5); p.connect(); subs = []
    for i in range(14):
        c = Client(w, b, "s%d" % i, r.choice([5, 5, 5, 4])); c.lim = r.choice([60, 100, 130, 131, 200, 400, 1000, 3000]); c.q = r.choice([0, 1, 2]); c.pers = r.random() < 0.5; c.sid = r.choice([None, 3, 70000]); c.alm = r.choice([0, 0, 0, 5]); c.known = set()
        open_(c, r); subs.append(c); o = c.q | 8 if c.ver == 5 else c.q; c.sub(("t/#", o), pr=[("sub_id", c.sid)] if c.ver == 5 and c.sid else None)
    T = ["t/x", "t/long" + "y" * 40, "t/é"]
    def message():
        pr = []
        if r.random() < 0.4: pr.append((38, ("k", "v" * r.choice([0, 5, 30]))))
        if r.random() < 0.3: pr.append((2, 5000))
        if r.random() < 0.3: pr += [(3, "ct"), (9, b"corr"), (8, "re/s")]
        c = r.choice([x for x in subs if x.ver == 5]); t = r.choice(T); q = r.choice([0, 1, 2]); base = u(); sz = plen(c, t, base, min(q, c.q), pr, c.sid)
        want = c.lim + r.choice([-2, -1, 0, 0, 1, 1, 2, 40, -40]); fill = b"." * max(0, want - sz)
        while fill and plen(c, t, base + fill, min(q, c.q), pr, c.sid) > want: fill = fill[:-1]    # length fields grow too
        return t, base + fill, q, pr
    def verdict(c, t, pay, q, pr):
        e = min(q, c.q)
        if c.ver != 5: return True
        n = plen(c, t, pay, e, pr, c.sid)
        if not c.alm: return n <= c.lim
        a = [n, plen(c, t, pay, e, pr, c.sid, "first"), plen(c, t, pay, e, pr, c.sid, "next")]
        return True if max(a) <= c.lim else False if min(a) > c.lim else None
    def judge(c, msgs, path):
        got = [bytes(x.payload) for x in c.pubs]; seen = set(got)
        for t, pay, q, pr in msgs:
            v = verdict(c, t, pay, q, pr); ctx.eval((path, c.ver, c.lim, min(q, c.q), c.sid, c.alm, plen(c, t, pay, min(q, c.q), pr, c.sid) - c.lim))
            if v is True and pay not in seen: raise Violation("%s: message of %d bytes not delivered to %s with Maximum Packet Size %s" % (path, plen(c, t, pay, min(q, c.q), pr, c.sid), c.name, c.lim if c.ver == 5 else None))
            if v is False and pay in seen: raise Violation("%s: message of %d bytes delivered to %s with Maximum Packet Size %s" % (path, plen(c, t, pay, min(q, c.q), pr, c.sid), c.name, c.lim))
            ctx.count("fit" if v else "too_big" if v is False else "not_judged")
        if len(got) != len(seen): raise Violation("%s: %s got messages twice" % (path, c.name))
        if seen - {m[1] for m in msgs}: raise Violation("%s: %s got something unexpected" % (path, c.name))
        c.pubs.clear()
    for rnd in range(3 if not ctx.thorough else 12):
        msgs = [message() for _ in range(50)]; ctx.step("live", rnd)
        for m in msgs: p.pub(m[0], m[1], m[2], pr=m[3])
        w.barrier([p], subs)
        for c in subs: judge(c, msgs, "live")
        # wills
        ms = []
        for i in range(8):
            t, pay, q, pr = message(); ms.append((t, pay, q, pr)); k = Client(w, b, "will%d" % i, 5); k.connect(will={"topic": t, "payload": pay, "qos": q, "props": pr}); k.send(disconnect(5, 4)); k.wait_closed()
        elapse(w, b, 4, 3); w.barrier(subs)
        for c in subs: judge(c, ms, "wills")
        # offline, with other limits when they return
        off = [c for c in subs if c.pers]; msgs = [m for m in (message() for _ in range(40)) if m[2]]
        for c in off: c.drop() if r.random() < 0.5 else c.disconnect()
        tick(w, b, 3)
        for c in off:
            c.lim = r.choice([60, 100, 131, 400, 3000])
        for m in msgs: p.pub(m[0], m[1], m[2], pr=m[3])
        w.barrier([p])
        new = []
        for c in off:
            k = Client(w, b, c.cid, c.ver); k.lim, k.q, k.pers, k.sid, k.alm, k.known = c.lim, c.q, c.pers, c.sid, c.alm, set(); open_(k, r, False); subs[subs.index(c)] = k; new.append(k)
        w.barrier(subs); w.barrier(subs)
        mine = lambda c: [m for m in msgs if min(m[2], c.q)]
        for c in subs: judge(c, mine(c) if c in new else msgs, "queued" if c in new else "live")
        # retained
        ms = []
        for i in range(12): t, pay, q, pr = message(); t = "t/r%d/%s" % (i, "z" * r.choice([0, 20])); ms.append((t, pay, q, pr)); p.pub(t, pay, q, True, pr=pr)
        w.barrier([p], subs)
        for c in subs: c.pubs.clear()
        tick(w, b, 3)
        exp = lambda m: m[3] if any(x[0] == 2 for x in m[3]) else m[3] + [(2, 1)]    # the retained store's maximum age
        for c in subs:
            c.sub(("t/#", c.q | 8 if c.ver == 5 else c.q), pr=[("sub_id", c.sid)] if c.ver == 5 and c.sid else None)
        w.barrier(subs); w.settle(0.15); w.barrier(subs)
        for c in subs: judge(c, [(m[0], m[1], m[2], exp(m)) for m in ms], "retained")
        for m in ms: p.pub(m[0], b"", 1, True)
        w.barrier([p], subs)
        for c in subs: c.pubs.clear()
def open_(c, r, clean=True):
    pr = [("max_packet", c.lim), ("topic_alias_max", c.alm), ("session_expiry", 5000 if c.pers else 0)] if c.ver == 5 else None
    c.connect(clean=clean if c.ver == 5 else not c.pers, pr=pr)

def queue(ctx):
    """Offline queues: a prefix of what was accepted, within both limits, complete if it is below them."""
    r = ctx.rng; nlim = r.choice([32, 40, 100, 512]); blim = r.choice([4096, 10000, 65536, 1000000]); store = r.random() < 0.4
    b = ctx.broker(threads=3, storage=store, conf={"max_qos_msg_pending_per_client": nlim, "max_qos_bytes_pending_per_client": blim, "client_max_write_buffer_size": 50000000, "max_string_length": 65535}); w = ctx.world(b); u = Uniq()
    p = Client(w, b, "pub", 5); p.connect(); S = []
    for i in range(8):
        c = Client(w, b, "q%d" % i, r.choice([4, 5, 5])); c.q = r.choice([1, 2]); c.rm = r.choice([None, None, 1, 10, 1000]) if c.ver == 5 else None
        def conn(c, clean=False): c.connect(clean=clean and c.ver == 5, pr=([("session_expiry", 50000)] + ([("receive_max", c.rm)] if c.rm else [])) if c.ver == 5 else None)
        conn(c); c.sub(("q/#", c.q)); S.append(c)
    for rnd in range(4 if not ctx.thorough else 20):
        for c in S: c.drop() if r.random() < 0.5 else c.disconnect()
        tick(w, b, 3); sent = []; style = r.choice(["count", "count", "bytes", "bytes", "props", "expiry"]); m = r.choice([nlim - 1, nlim, nlim + 1, nlim * 2]) if style != "bytes" else r.choice([20, 60, 200])
        for i in range(m):
            pr = []
            if style == "bytes": pay = u() + b"." * r.choice([blim // 10, blim // 3, blim // 50, 0])
            elif style == "props": pay = u(); pr = [(38, ("key", "v" * r.choice([100, blim // 10 if blim < 500000 else 50000])))]
            else: pay = u()
            if style == "expiry" and i % 3 == 0: pr = [(2, 30)]
            sent.append((pay, len(pay) + 3 + sum(len(k) + len(v) for _, x in pr if isinstance(x, tuple) for k, v in [x]), pr)); p.pub("q/x", pay, 2, pr=pr)
        w.barrier([p]); extra = []
        if style == "expiry":    # what expired makes place for new messages
            elapse(w, b, 35, 3)
            for i in range(5): pay = u(); extra.append((pay, len(pay) + 3, [])); p.pub("q/x", pay, 1)
            w.barrier([p])
        if store and r.random() < 0.5:
            p.disconnect(); b.restart(); p = Client(w, b, "pub", 5); p.connect(); ctx.count("restarts")
        for i, c in enumerate(S):
            k = Client(w, b, c.cid, c.ver); k.q, k.rm = c.q, c.rm; conn(k); S[i] = k
            if k.connack.sp != 1: raise Violation("session lost")
        w.barrier(S); last = -1
        while last != sum(len(c.pubs) for c in S): last = sum(len(c.pubs) for c in S); w.barrier(S); w.settle(0.06); w.barrier(S)
        for c in S:
            got = []
            for x in c.pubs:
                if not x.dup or bytes(x.payload) not in got: got.append(bytes(x.payload))
            lim = min(nlim, c.rm or 65535); alive = [s for s in sent if not (style == "expiry" and s[2])]
            allm = [s[0] for s in sent]; size = {s[0]: s[1] for s in sent + extra}
            if style == "expiry":
                acc = sent[:lim]; keep = [s[0] for s in acc if not s[2]]; want = keep + [s[0] for s in extra[:lim - len(keep)]]
                if sum(s[1] for s in sent + extra) > blim: want = None
            else:
                want = None; full = sum(s[1] for s in sent)
                if got != allm[:len(got)]: raise Violation("%s: the offline queue was not the earliest messages in order: %d of %d, %s" % (c.name, len(got), len(sent), diff(allm[:len(got)], got)))
                if len(got) < min(lim, len(sent)) and sum(s[1] for s in sent[:len(got)]) < blim: raise Violation("%s (receive maximum %s): %d messages kept of %d, with limits %d messages and %d bytes not reached (%d bytes)" % (c.name, c.rm, len(got), len(sent), nlim, blim, sum(s[1] for s in sent[:len(got)])))
            if want is not None and got != want: raise Violation("%s: after expiry: %s (limit %d)" % (c.name, diff(want, got) or "order", lim))
            if len(got) > lim: raise Violation("%s: %d messages were queued, limit %d" % (c.name, len(got), lim))
            n = sum(size[g] for g in got[:-1])
            if n >= blim: raise Violation("%s: %d bytes were queued before the last message (%s), limit %d" % (c.name, n, style, blim))
            ctx.eval((nlim, blim, style, m, c.q, c.rm, rnd)); ctx.count("queued", len(got)); ctx.count("dropped_at_limit", len(sent) - len(got)); c.pubs.clear()

class Pair:
    """Canary: round trips that must stay quick."""
    def __init__(self, w, b): self.w = w; self.s = Client(w, b, "canary-s", 4); self.p = Client(w, b, "canary-p", 5); self.s.connect(); self.p.connect(); self.s.sub(("canary", 1)); self.n = 0; self.worst = 0
    def sing(self):
        t = time.monotonic(); self.n += 1; self.p.pub("canary", "c%d" % self.n, 1); self.w.until(lambda: len(self.s.pubs) >= self.n, 30, "canary message"); self.worst = max(self.worst, time.monotonic() - t)
        if bytes(self.s.pubs[-1].payload) != b"c%d" % self.n: raise Violation("canary message wrong")

def stall(ctx, how, qos, threads):
    r = ctx.rng; limit = 200000; S = {"fullchain": "{dir}/srv.crt", "privkey": "{dir}/srv.key"}
    from lib import certs
    import ssl
    b = ctx.broker(start=False, threads=threads, listeners=[{"name": "tcp"}, {"name": "ws", "protocol": "websockets"}, dict(name="tls", **S)], conf={"client_max_write_buffer_size": limit, "max_qos_msg_pending_per_client": 100, "max_qos_bytes_pending_per_client": 300000}); b.quarantine = 0
    certs.ca(b.dir); certs.cert(b.dir, "srv", "localhost"); b.start(); t = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); t.load_verify_locations(b.dir + "/ca.crt"); t.check_hostname = False
    w = ctx.world(b); can = Pair(w, b); p = Client(w, b, "pub", 4); p.connect(); fast = Client(w, b, "fast", 4); fast.connect(); fast.sub(("st", qos)); bad = []
    for i in range(12):
        h = how if how != "mixed" else ["tcp", "ws", "tls"][i % 3]
        c = Client(w, b, "stall%d" % i, r.choice([4, 5]), rcvbuf=4096, ack=True, **({"port": b.ports["tls"], "tls": t} if h == "tls" else {"port": b.ports["ws"], "ws": True} if h == "ws" else {"port": b.ports["tcp"]}))
        c.connect(clean=i % 2 == 0, pr=[("session_expiry", 50)] if c.ver == 5 and i % 2 else None); c.sub(("st", qos)); bad.append(c)
    size = {}; sent = []
    def blast(n, sz, check=True):
        got0 = len(fast.pubs)
        for i in range(n):
            k = len(sent); pay = struct.pack(">I", k) + (hashlib.md5(b"%d" % k).digest() * (sz // 16 + 1))[:sz]; sent.append(len(pay)); p.pub("st", pay, qos, wait=False)
            if i % max(1, 40000 // sz) == 0: w.barrier([p]); w.barrier([fast])
        w.barrier([p], [fast])
        if check and len(fast.pubs) - got0 != n: raise Violation("a client that reads got %d of %d messages while others are stalled" % (len(fast.pubs) - got0, n))
    blast(60, 1000); w.barrier(bad); can.sing(); base = b.rss_kb()
    for c in bad: c.pause()
    total = 0; worst = 0
    for rnd in range(6):
        sz = r.choice([1000, 5000, 20000]); n = 6000000 // sz // 6; blast(min(n, 400), sz); total += min(n, 400) * sz
        can.sing(); can.sing(); worst = max(worst, b.rss_kb())
    grow = (worst - base) * 1024; ctx.peak("rss_growth_kb_of_12_stalled", worst - base); ctx.peak("canary_round_trip_ms", int(can.worst * 1000))
    # per client: write buffer up to twice the limit (powers of two), the websocket copy, TLS, the session queue; sanitizer overhead
    allow = len(bad) * (4 * limit + (800000 if qos else 0)) + 12000000
    if grow > allow: raise Violation("12 clients that do not read made the broker grow by %d bytes (published: %d bytes, limit per client %d)" % (grow, total, limit))
    if can.worst > 8: raise Violation("others had to wait %.1f s while clients did not read" % can.worst)
    ctx.count("bytes_published_to_stalled", total * len(bad))
    for c in bad:
        if not c.open: raise Violation("%s was disconnected" % c.name)
        c.resume()
    w.barrier(bad, timeout=90); w.settle(0.1); w.barrier(bad); k = len(sent); blast(10, 500)
    w.barrier([p], bad); w.settle(0.1); w.barrier(bad)
    for c in bad:
        seq = [struct.unpack(">I", x.payload[:4])[0] for x in c.pubs]; first = []
        for i, x in enumerate(c.pubs):
            n = seq[i]
            if len(x.payload) != sent[n] or bytes(x.payload[4:20]) != hashlib.md5(b"%d" % n).digest()[:max(0, sent[n] - 4)][:16]: raise Violation("%s: message %d is damaged after the stall" % (c.name, n))
            if not x.dup: first.append(n)
        if any(y <= x for x, y in zip(first, first[1:])): raise Violation("%s: duplicated or reordered messages after the stall" % c.name)
        if not set(range(k, k + 10)) <= set(seq): raise Violation("%s: reads again, but new messages did not come: %s" % (c.name, sorted(set(seq))[-12:]))
        ctx.eval((how, qos, threads, c.name, len(seq))); ctx.count("delivered_to_stalled", len(seq))
    ctx.eval(("canary", how, qos), can.n)

def drip(ctx):
    """Clients reading a few bytes now and then; the others are not disturbed and every stream stays valid."""
    r = ctx.rng; b = ctx.broker(threads=2, conf={"client_max_write_buffer_size": 65536, "max_qos_msg_pending_per_client": 64, "max_qos_bytes_pending_per_client": 100000}); w = ctx.world(b); can = Pair(w, b); p = Client(w, b, "pub", 5); p.connect(); D = []; sent = {}
    for i in range(10): c = Client(w, b, "d%d" % i, r.choice([3, 4, 5]), rcvbuf=2500); c.connect(pr=[("topic_alias_max", 10)] if c.ver == 5 else None); c.sub(("d/#", i % 3)); D.append(c)
    n = 0
    for i in range(500 if not ctx.thorough else 5000):
        n += 1; q = r.choice([0, 1, 2]); sz = r.choice([0, 50, 3000, 30000, 100000] if i % 10 == 0 else [0, 50, 3000]); sent[n] = (q, sz, "d/%d" % (n % 7)); p.pub(sent[n][2], struct.pack(">I", n) + b"%d" % n * (sz // len(b"%d" % n)), q, wait=False)
        for c in r.sample(D, 3):
            try: d = c.s.recv(r.choice([1, 50, 1000, 10000]))
            except BlockingIOError: continue
            if not d: raise Violation("slow client disconnected")
            c.feed(d); c.pause()
        if i % 25 == 24: w.barrier([p]); can.sing()
    for c in D: c.resume()
    w.barrier([p]); w.barrier(D); w.settle(0.1); w.barrier(D)
    for c in D:
        seq = []
        for x in c.pubs:
            k = struct.unpack(">I", x.payload[:4])[0]; q, sz, t = sent[k]
            if x.topic != t or bytes(x.payload[4:]) != b"%d" % k * (sz // len(b"%d" % k)): raise Violation("%s: message %d damaged" % (c.name, k))
            seq.append((x.qos, k)); ctx.eval((c.name, k))
        for q in range(3):
            s = [k for qq, k in seq if qq == q]
            if any(y <= x for x, y in zip(s, s[1:])): raise Violation("%s: duplicate or reordered at QoS %d" % (c.name, q))
    ctx.peak("canary_round_trip_ms", int(can.worst * 1000))
    if can.worst > 8: raise Violation("others had to wait %.1f s" % can.worst)

def maxqos(ctx):
    """Publishes and wills above max_qos, per listener and global."""
    r = ctx.rng
    for mq in (0, 1, 2):
        for act in (None, "drop", "disconnect"):
            for per in (False, True):
                st = {"max_qos": mq}; st.update({"mqtt3_qos_exceed_action": act} if act else {}); b = ctx.broker(threads=2, listeners=[dict({"name": "l"}, **(st if per else {})), {"name": "free", "max_qos": 2}], conf={} if per else st); w = ctx.world(b); got = []
                o = Client(w, b, "o", 5, port=b.ports["free"]); o.connect(); o.sub(("#", 2)); o.on_publish = lambda x: got.append((x.topic, x.qos))
                for ver in (3, 4, 5):
                    for q in (0, 1, 2):
                        what = "MQTT %d, QoS %d, max_qos %d, action %s, per listener %s" % (ver, q, mq, act, per); ctx.step(what); c = Client(w, b, "c", ver, port=b.ports["l"]); c.connect()
                        if ver == 5 and (c.connack.prop("max_qos") if mq < 2 else None) != (mq if mq < 2 else None): raise Violation(what + ": CONNACK announces %s" % c.connack.props)
                        c.sub(("s", 2), check=False); 
                        if q > mq and (ver == 5 or act != "drop"):
                            c.send(publish(ver, "t", "x", q, True, 7)); c.wait_closed()
                            if ver == 5 and (c.disc is None or c.disc.rc != 0x9B): raise Violation(what + ": DISCONNECT %s" % c.disc)
                            if (PUBACK, 7) in c.acks or (PUBREC, 7) in c.acks: raise Violation(what + ": acknowledged")
                        else:
                            c.pub("t", "x", q); w.barrier([c]); 
                            if not c.open: raise Violation(what + ": disconnected")
                            c.disconnect()
                        w.barrier([o])
                        want = [("t", q)] if q <= mq else []
                        if got != want: raise Violation(what + ": delivered %s, expected %s" % (got, want))
                        got.clear(); ctx.eval((ver, q, mq, act, per))
                        c = Client(w, b, "cw", ver, port=b.ports["l"]); c.connect(will={"topic": "w", "payload": "x", "qos": q}, expect=None)
                        ok = c.connack is not None and c.connack.rc == 0
                        if q <= mq and not ok: raise Violation(what + ": will refused: %s" % c.connack)
                        if q > mq and ok and (ver == 5 or act != "drop"): raise Violation(what + ": will accepted")
                        if q > mq and ver == 5 and c.connack is not None and c.connack.rc != 0x9B: raise Violation(what + ": will refused with %s" % c.connack)
                        if ok: c.send_raw(b"\0\0"); c.wait_closed()
                        tick(w, b, 2)
                        w.barrier([o]); want = [("w", q)] if q <= mq else []
                        if got != want: raise Violation(what + ": will delivered %s, expected %s" % (got, want))
                        got.clear(); ctx.eval((ver, q, mq, act, per, "will"))
                k = Client(w, b, "late", 5, port=b.ports["free"]); k.connect(); k.sub("#"); w.barrier([k])
                if k.pubs: raise Violation("refused publishes left retained messages")
                for x in list(w.clients): x.drop()
                b.stop()

def strings(ctx):
    """max_string_length in every place a string can be, from both sides of the limit."""
    for lim in (20, 127, 1000):
        b = ctx.broker(threads=2, conf={"max_string_length": lim}); w = ctx.world(b); got = []
        o = Client(w, b, "o", 5); o.connect(); o.sub("#"); o.on_publish = lambda x: got.append(x)
        for ver in (3, 4, 5):
            for d in (-1, 0, 1, 50):
                n = lim + d; s = "s" * n; u8 = "é" * (n // 2) + "a" * (n % 2)
                acts = [("topic", lambda: publish(ver, s, "x", 1, False, 3)), ("topic, two-byte characters", lambda: publish(ver, u8, "x", 1, False, 3)), ("filter", lambda: subscribe(ver, 3, [(s, 0)])), ("second filter", lambda: subscribe(ver, 3, [("a", 0), (s, 0)])), ("filter to unsubscribe", lambda: unsubscribe(ver, 3, [s]))]
                if ver == 5: acts += [("content type", lambda: publish(5, "t", "x", 1, False, 3, pr=[(3, s)])), ("response topic", lambda: publish(5, "t", "x", 1, False, 3, pr=[(8, s)])), ("user property key", lambda: publish(5, "t", "x", 1, False, 3, pr=[(38, (s, "v"))])), ("user property value", lambda: publish(5, "t", "x", 1, False, 3, pr=[(38, ("k", s))]))]
                for what, f in acts:
                    c = Client(w, b, "c", ver); c.connect(); c.send(f()); c.ping_sent += 1; c.send(PING); w.until(lambda: c.pongs or not c.open, 20, "answer"); w.barrier([o]); what = "MQTT %d: %s of %d bytes, limit %d" % (ver, what, n, lim)
                    if d > 0 and c.open: raise Violation(what + ": accepted")
                    if d > 0 and got: raise Violation(what + ": delivered")
                    if d <= 0 and not c.open: raise Violation(what + ": refused")
                    if d <= 0 and "filter" not in what and len(got) != 1: raise Violation(what + ": not delivered")
                    got.clear(); c.drop(); ctx.eval((what,))
                cs = [("client id", dict(cid=s)), ("user name", dict(cid="u%d%d" % (ver, n), user=s, pw="x")), ("will topic", dict(cid="c", will={"topic": s, "payload": "x"}))] + ([("user property", dict(cid="c", pr=[(38, ("k", s))])), ("will content type", dict(cid="c", will={"topic": "w", "payload": "x", "props": [(3, s)]}))] if ver == 5 else [])
                for what, kw in cs:
                    c = Client(w, b, "", ver); kw = dict(kw); c.send(connect(ver, kw.pop("cid"), True, 60000, **kw)); w.until(lambda: c.connack or not c.open, 20, "CONNACK"); what = "MQTT %d: %s of %d bytes in CONNECT, limit %d" % (ver, what, n, lim)
                    ok = c.connack is not None and c.connack.rc == 0
                    if ok != (d <= 0): raise Violation(what + (": accepted" if ok else ": refused"))
                    if ok: c.disconnect()
                    else: c.drop()
                    w.barrier([o]); got.clear(); ctx.eval((what,))
        for x in list(w.clients): x.drop()
        b.stop()

def inbound(ctx):
    """max_packet_size: announced, boundary accepted, one byte more refused without effect, on all versions and for all packets."""
    for lim in (200, 1000, 70000, 3000000):
        b = ctx.broker(threads=2, conf=dict(BIGQ, max_packet_size=lim, max_string_length=65535)); w = ctx.world(b); got = []
        o = Client(w, b, "o", 4); o.connect(); o.sub("#"); o.on_publish = lambda x: got.append(len(x.payload))
        for ver in (3, 4, 5):
            c = Client(w, b, "c", ver); c.connect()
            if ver == 5 and c.connack.prop("max_packet") != lim: raise Violation("Maximum Packet Size announced as %s, configured %d" % (c.connack.prop("max_packet"), lim))
            c.disconnect()
            for d in (-1, 0, 1, 2, 1000):
                for q in (0, 1):
                    mk = lambda n: publish(ver, "t", b"." * n, q, False, 5); n = lim + d - len(mk(0))
                    while len(mk(n)) > lim + d: n -= 1
                    if len(mk(n)) != lim + d: continue
                    c = Client(w, b, "c", ver); c.connect(); c.ping_sent += 1; c.send(mk(n) + PING); w.until(lambda: c.pongs or not c.open, 30, "answer"); w.barrier([o]); what = "MQTT %d: PUBLISH of %d bytes, max_packet_size %d" % (ver, lim + d, lim)
                    if d > 0 and (c.open or got): raise Violation(what + ": accepted")
                    if d <= 0 and (not c.open or got != [n]): raise Violation(what + ": refused, %s" % c.disc)
                    if d > 0 and ver == 5 and c.disc is not None and c.disc.rc != 0x95: raise Violation(what + ": DISCONNECT code %x" % c.disc.rc)
                    got.clear(); c.drop(); ctx.eval(what)
            # a header announcing more than allowed is enough
            c = Client(w, b, "c", ver); c.connect(); c.send(bytes([0x30]) + varint(min(lim + 1, 268435455))); w.until(lambda: not c.open, 20, "refusal of a header announcing %d bytes with limit %d" % (lim + 1, lim)); ctx.eval((ver, lim, "header"))
        for x in list(w.clients): x.drop()
        b.stop()
