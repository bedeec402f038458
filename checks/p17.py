from common import *
from lib import certs
import ssl, hashlib, re
RULE = ("Random MQTT 3.1/3.1.1/5 scripts (publishes at all QoS to own subscriptions, aliases, retained messages, handshakes both ways) are run once packet by packet over TCP; then the same bytes are sent over TCP, TLS 1.2/1.3, websocket, secure websocket, unix socket and PROXY v2 (plain and websocket), cut in many ways "
        "(one byte, random pieces, everything at once, TLS records, websocket frames of all lengths, fragmented messages, masks, interleaved pings). Oracle: the decoded answer stream is byte for byte the reference one; streams that end anywhere have the effect of their complete packets only; what a slow reader gets is exactly what was sent. Evaluation = one replay or one judged message; distinct by script, transport and cutting.")
BUDGET = {"quick": 420}
KINDS = ["tcp", "tls12", "tls13", "ws", "wss", "unix", "px", "pxws", "pxtls"]

def cases(tier, rng):
    n = 1 if tier == "quick" else 12
    out = [("stream-%d-%d" % (v, i), "stream", {"ver": v, "k": i, "scripts": 6 if tier == "quick" else 30}) for i in range(2 * n) for v in (3, 4, 5, 5)]
    out += [("slow-" + k, "slow", {"kind": k}) for k in KINDS]
    out += [("ends-%d" % i, "ends") for i in range(2 * n)] + [("handshakes", "handshakes"), ("small-buffers", "smallbuf")]
    return out

def contexts(d):
    certs.ca(d); certs.cert(d, "srv", "localhost")
    out = {}
    for k, v in (("tls12", ssl.TLSVersion.TLSv1_2), ("tls13", ssl.TLSVersion.TLSv1_3)):
        t = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); t.load_verify_locations(d + "/ca.crt"); t.minimum_version = t.maximum_version = v; t.check_hostname = False; out[k] = t
    return out

class Site:
    def __init__(self, ctx, threads=3, **conf):
        S = {"fullchain": "{dir}/srv.crt", "privkey": "{dir}/srv.key"}
        L = [{"name": "tcp"}, dict(name="tls", **S), {"name": "ws", "protocol": "websockets"}, dict(name="wss", protocol="websockets", **S), {"name": "px", "haproxy": "on"}, {"name": "pxws", "protocol": "websockets", "haproxy": "on"}, dict(name="pxtls", haproxy="on", **S),
             {"inet_protocol": "unix", "unix_socket_path": "{dir}/sock"}]
        self.b = ctx.broker(start=False, threads=threads, listeners=L, conf=dict(BIGQ, max_incoming_topic_alias_value=20, max_outgoing_topic_alias_value=20, **conf)); self.tls = contexts(self.b.dir); self.b.start(); self.w = ctx.world(self.b); self.ctx = ctx
    def client(self, kind, cid, ver, **kw):
        b = self.b; P = proxy_v2()
        if kind == "tcp": a = {"port": b.ports["tcp"]}
        elif kind in ("tls12", "tls13"): a = {"port": b.ports["tls"], "tls": self.tls[kind]}
        elif kind == "ws": a = {"port": b.ports["ws"], "ws": True}
        elif kind == "wss": a = {"port": b.ports["wss"], "ws": True, "tls": self.tls["tls13"]}
        elif kind == "unix": a = {"unix": b.path("sock")}
        elif kind == "px": a = {"port": b.ports["px"], "proxy": P}
        elif kind == "pxws": a = {"port": b.ports["pxws"], "proxy": P, "ws": True}
        elif kind == "pxtls": a = {"port": b.ports["pxtls"], "proxy": P, "tls": self.tls["tls12"]}
        return Client(self.w, b, cid, ver, **dict(a, **kw))

# ---------------------------------------------------------------- scripts and reference answers
ROOT, CID = b"R@0000", b"C@0000"
def inst(data, n): return data.replace(ROOT, b"R@%04d" % n).replace(CID, b"C@%04d" % n)
def script(s, ver, r, k):
    """Runs a random script interactively; returns (list of packets, answer stream), both with the place-holders."""
    c = s.client("tcp", "ref", ver, raw_mode=True, ack=False); c._publish = c.pubs.append; c.ping_sent = 1 << 30
    packets = []; waiting = []; own2 = []; pid = 0; npings = 0
    def go(d):
        nonlocal npings
        packets.append(d); n = len(c.inbox); c.send(inst(d, k)); npings += 1
        c.send(PING); packets.append(PING)
        s.w.until(lambda: c.pongs >= npings or not c.open, 30, "answer to %s" % d[:40].hex())
        if not c.open: raise Violation("reference run: connection closed after %s (%s)" % (d[:60], c.disc))
        for p in c.inbox[n:]:
            if p.type == PUBLISH and p.qos: waiting.append((p.pid, PUBACK if p.qos == 1 else PUBREC))
            elif p.type == PUBREL: waiting.append((p.pid, PUBCOMP))
            elif p.type == PUBREC: own2.append(p.pid)
    go(connect(ver, CID.decode(), True, 60000, pr=[("topic_alias_max", r.choice([0, 3, 20])), ("receive_max", r.choice([3, 20, 65535])), ("max_packet", 200000)] if ver == 5 else None))
    root = ROOT.decode(); later = r.random() < 0.5; T = ["x", "y", "x/y", "é/z", "a/b/c/d"]; ali = {}
    go(subscribe(ver, 9, [(root + "/#", r.choice([0, 1, 2]))], [("sub_id", 5)] if ver == 5 and r.random() < 0.5 else None))
    for i in range(r.choice([15, 30, 45])):
        k2 = r.random(); pid = pid % 60000 + 1
        if k2 < 0.55:
            n = r.choice([0, 1, 5, 20, 100, 121, 130, 700, 3000]) if r.random() < 0.93 else r.choice([16300, 17000, 65535, 70000, 150000]); t = r.choice(T); pr = []
            if ver == 5:
                if r.random() < 0.3: pr += [(38, ("k%d" % i, "v" * r.choice([0, 3, 200])))]
                if r.random() < 0.3: pr += [(3, "ct"), (9, bytes([i]))]
                if r.random() < 0.4:
                    a = r.randint(1, 20); pr += [(35, a)]
                    if ali.get(a) and r.random() < 0.6: t = None
                    else: ali[a] = t
            go(publish(ver, "" if t is None else root + "/" + t, bytes([65 + i % 26]) * n, r.choice([0, 1, 2]), not later and r.random() < 0.1, pid, pr=pr))    # storing a retained message may be deferred when others do it too, so no subscription may come after one
        elif k2 < 0.8 and waiting:
            q, t = waiting.pop(r.randrange(len(waiting)) if r.random() < 0.3 else 0); go(ack(ver, t, q))
        elif k2 < 0.88 and own2: go(ack(ver, PUBREL, own2.pop(0)))
        elif k2 < 0.94 and later: go(subscribe(ver, pid, [(root + r.choice(["/x", "/+/#", "/x/+", "/+"]), r.choice([0, 1, 2])) for _ in range(r.choice([1, 2]))]))
        elif k2 < 0.97: go(unsubscribe(ver, pid, [root + r.choice(["/x", "/+/#", "/x/+", "/+"])]))
        else: go(b"\xc0\0"); npings += 1
    s.w.until(lambda: c.pongs >= npings, 10, "pings"); c.disconnect()
    ctx = s.ctx; ctx.count("script_packets", len(packets))
    ref = bytes(c.raw).replace(b"R@%04d" % k, ROOT)
    return packets, ref

# ---------------------------------------------------------------- cutting
def cut(data, sizes):
    out = []; i = 0
    while i < len(data): n = max(1, sizes()); out.append(data[i:i + n]); i += n
    return out
def cuttings(r, packets):
    data = b"".join(packets); way = r.choice(["whole", "packets", "bytes", "small", "random", "straddle", "mixed"])
    if way == "whole": return way, [data]
    if way == "packets": return way, list(packets)
    if way == "bytes" and len(data) < 9000: return way, cut(data, lambda: 1)
    if way == "small" and len(data) < 40000: return way, cut(data, lambda: r.randint(1, 7))
    if way == "straddle":    # every packet is cut once, its end travels with the beginning of the next
        out = []; rest = b""
        for p in packets: k = r.randrange(len(p) + 1); out.append(rest + p[:k]); rest = p[k:]
        return way, [x for x in out + [rest] if x]
    if way == "mixed": return way, cut(data, lambda: r.choice([1, 1, 2, 3, 125, 126, 127, 1024, 65535, 65536, 70000]))
    return "random", cut(data, lambda: r.choice([r.randint(1, 30), r.randint(1, 3000)]))
def frames(r, pieces, frag=True):
    """Websocket frames carrying the pieces: the frames need not coincide with what is sent at once."""
    out = []; pings = []; mask = lambda: r.choice([b"\0\0\0\0", os.urandom(4), b"\xff\0\xff\0"])
    def control():
        if r.random() < 0.15: d = os.urandom(r.choice([0, 1, 4, 125])); pings.append(d); out.append(ws_frame(d, 9, mask()))
        elif r.random() < 0.05: out.append(ws_frame(os.urandom(r.choice([0, 60])), 10, mask()))
    for p in pieces:
        control()
        if frag and r.random() < 0.3:
            k = [b""] if r.random() < 0.2 else []; a = r.randrange(len(p) + 1); q = k + [p[:a], p[a:]] + ([b""] if r.random() < 0.2 else [])
            for i, x in enumerate(q): out.append(ws_frame(x, 2 if i == 0 else 0, mask(), fin=i == len(q) - 1)); control()
        else:
            if r.random() < 0.05: out.append(ws_frame(b"", 2, mask()))
            out.append(ws_frame(p, 2, mask()))
    if r.random() < 0.5: return out, pings
    return cut(b"".join(out), lambda: r.choice([1, 2, 3, 7, 100, 5000, 200000])) if sum(map(len, out)) > 20000 or r.random() < 0.6 else cut(b"".join(out), lambda: 1), pings

def stream(ctx, ver, k, scripts):
    r = ctx.rng; s = Site(ctx, client_initial_buffer_size=r.choice([2, 8, 64, 256, 1024, 4096])); n = 0
    for sc in range(scripts):
        n += 1; packets, ref = script(s, ver, r, n); live = []
        for kind in KINDS * 2 + [r.choice(KINDS) for _ in range(6)]:
            n += 1; way, pieces = cuttings(r, [inst(p, n) for p in packets]); pings = []
            c = s.client(kind, "%s/%s" % (kind, way), ver, raw_mode=True, ack=False); c._publish = c.pubs.append; c.ping_sent = 1 << 30
            if c.ws is not None: pieces, pings = frames(r, pieces)
            live.append([c, pieces, 0, n, way, pings, kind, r.choice([0, 0, 1, 8])]); ctx.count("pieces_sent", len(pieces))
        todo = list(live)
        while todo:
            for x in list(todo):
                for _ in range(r.choice([1, 1, 5])):
                    if x[2] == len(x[1]) or not x[0].open: todo.remove(x); break
                    if x[0].outbuf: break    # keep the pieces apart
                    x[0].send_raw(x[1][x[2]]); x[2] += 1
            s.w.pump(0.0005 if r.random() < 0.1 else 0)
        for c, pieces, _, m, way, pings, kind, _ in live:
            want = inst(ref, m); what = "script %d over %s cut %s (%d pieces)" % (sc, kind, way, len(pieces))
            s.w.until(lambda: len(c.raw) >= len(want) or not c.open, 30, lambda: "the whole answer of %s: %d of %d bytes%s" % (what, len(c.raw), len(want), "" if c.ws is None else " (%d of %d pongs)" % (len(c.ws.pongs), len(pings))))
            if bytes(c.raw) != want:
                i = next((i for i, (a, b) in enumerate(zip(c.raw, want)) if a != b), min(len(c.raw), len(want)))
                raise Violation("%s: answer differs from the one over TCP from byte %d (of %d, expected %d); expected ..%s got ..%s%s" % (what, i, len(c.raw), len(want), want[max(0, i - 8):i + 40].hex(), bytes(c.raw[max(0, i - 8):i + 40]).hex(), "" if c.open else "; connection closed by the broker, %r" % c.disc))
            if pings:
                s.w.until(lambda: len(c.ws.pongs) >= len(pings) or not c.open, 20, lambda: "websocket pongs of %s: %d of %d, first missing of %s bytes" % (what, len(c.ws.pongs), len(pings), [len(q) for q in pings[len(c.ws.pongs):][:5]]))
                if c.ws.pongs != pings: raise Violation("%s: websocket pongs %s for pings %s" % (what, c.ws.pongs[:3], pings[:3]))
                ctx.count("ws_pings", len(pings))
            ctx.eval((ver, sc, k, kind, way, len(pieces))); ctx.count("replays_" + kind); ctx.count("answer_bytes", len(want))
        for x in live: x[0].drop()
    ctx.sample({"packets": [p[:40].hex() for p in packets[:8]], "answer": ref[:120].hex()})

# ---------------------------------------------------------------- a stream that ends anywhere
def ends(ctx):
    """A publisher sends packets and closes, in the same breath: everything complete has its effect, nothing else."""
    r = ctx.rng; s = Site(ctx, client_initial_buffer_size=r.choice([4, 256, 1024])); got = []
    o = s.client("tcp", "obs", 5); o.connect(); o.sub("e/#"); o.on_publish = lambda p: got.append((p.topic, bytes(p.payload[:20]), len(p.payload)))
    for i in range(70 if not ctx.thorough else 700):
        ver = r.choice([3, 4, 5]); kind = r.choice(KINDS); c = s.client(kind, "e%d" % i, ver, ack=False)
        if r.random() < 0.4: c.connect(); head = []
        else: head = [connect(ver, "e%d" % i)]
        m = r.choice([3, 3, 30, 300, 3000]); sz = r.choice([0, 10, 100]) if m > 300 else r.choice([0, 50, 1000, 5000] if m > 30 else [0, 50, 5000, 200000])
        pk = [publish(ver, "e/%d" % i, ("%d;" % j).encode() + b"." * sz, r.choice([0, 1, 2]), False, j + 1) for j in range(m)]; cutat = None
        bye = r.random() < 0.5
        data = b"".join(head + pk + ([disconnect(ver)] if bye else []))
        if r.random() < 0.5: cutat = r.randrange(len(data)); data = data[:cutat]
        done = 0; pos = sum(map(len, head))
        for p in pk:
            pos += len(p)
            if pos <= len(data): done += 1
        how = r.choice(["shutdown", "shutdown", "tls"] if kind not in ("ws", "wss", "pxws") else ["shutdown", "wsclose"]); ctx.step(i, kind, ver, m, sz, len(data), how, done)
        ps = [data] if r.random() < 0.6 else cut(data, lambda: r.choice([1, 100, 5000, 60000]) if len(data) < 50000 else r.choice([1000, 60000]))
        if c.ws is not None:
            ps = frames(r, ps)[0]; ps = [b"".join(ps)] if r.random() < 0.6 else ps
            if how == "wsclose": ps[-1] += ws_frame(b"\x03\xe8bye", 8)
            elif cutat and r.random() < 0.5: ps[-1] += ws_frame(b"zzz", 2)[:r.randrange(6)]    # an unfinished frame
        for p in ps:
            c.send_raw(p)
            while c.outbuf: s.w.pump(0.01)
        if c.tlsobj is not None and how == "tls":
            try: c.s.setblocking(True); c.s.settimeout(5); c.s.unwrap()
            except (OSError, ValueError): pass
            try: c._eof()
            except (KeyError, ValueError): pass
        else: 
            try: socket.socket.shutdown(c.s, socket.SHUT_WR)    # an SSLSocket would forget its TLS state
            except OSError: pass
        s.w.until(lambda: not c.open or len(got) >= done and c.open and s.w.pump(0.2) is None, 30, "the end of connection %d over %s" % (i, kind)); c.drop() if c.open else None
        s.w.until(lambda: len(got) >= done, 15, lambda: "messages %d of %d sent over %s (%d packets of %d bytes in one stream of %d bytes, then closed with %s)" % (len(got), done, kind, m, sz, len(data), how))
        s.w.barrier([o])
        want = [("e/%d" % i, ("%d;" % j).encode() + b"." * min(sz, 20 - len("%d;" % j)), len("%d;" % j) + sz) for j in range(done)]
        if got != want: raise Violation("stream over %s ended after byte %d: observer got %d messages, expected %d (%s)" % (kind, len(data), len(got), done, diff(want, got)))
        ctx.eval(("ends", kind, ver, m, sz, how, cutat)); ctx.count("cut_streams"); got.clear()

# ---------------------------------------------------------------- slow readers
def fill(tag, n):
    h = hashlib.md5(b"%d" % tag).digest(); return struct.pack(">I", tag) + (h * (n // 16 + 1))[:n]
def slow(ctx, kind):
    r = ctx.rng; s = Site(ctx); p = s.client("tcp", "pub", 5); p.connect(); tag = 0
    for rnd in range(4 if not ctx.thorough else 30):
        ver = r.choice([3, 4, 5]); rs = []
        for j in range(3):
            c = s.client(kind, "slow%d-%d" % (rnd, j), ver, rcvbuf=r.choice([None, 2500, 5000, 20000])); c.connect(); c.sub(("slow/#", j)); rs.append(c)
        sent = []
        def wiggle():
            for c in rs:
                k = r.random()
                if k < 0.3: c.pause()
                elif k < 0.9:
                    c.paused = False; 
                    try: d = c.s.recv(r.choice([1, 2, 100, 1500, 20000]))
                    except (BlockingIOError, ssl.SSLWantReadError, ssl.SSLWantWriteError): d = None
                    if d == b"": raise Violation("slow reader over %s was disconnected" % kind)
                    if d: c.feed(d); ctx.count("partial_reads")
                    c.pause()
        for i in range(60):
            tag += 1; n = r.choice([0, 10, 500, 1300, 16384, 60000]) if r.random() < 0.9 else r.choice([250000, 900000]); q = r.choice([0, 1, 2]); sent.append((q, tag, n))
            for c in rs: c.pause()
            p.pub("slow/t", fill(tag, n), q, wait=False)
            for _ in range(r.choice([0, 1, 3])): wiggle(); s.w.pump(0)
            if i % 10 == 9:
                s.w.barrier([p])
                if r.random() < 0.4: [c.send(PING) or setattr(c, "ping_sent", c.ping_sent + 1) for c in rs]
        s.w.barrier([p]); wiggle()
        for c in rs: c.resume()
        s.w.until(lambda: all(len(c.pubs) >= len(sent) or not c.open for c in rs), 60, lambda: "everything sent to slow readers over %s: %s of %d" % (kind, [len(c.pubs) for c in rs], len(sent)))
        s.w.barrier(rs)
        for j, c in enumerate(rs):
            if not c.open: raise Violation("slow reader over %s was disconnected" % kind)
            for q in (0, 1, 2):    # order is promised per QoS level
                want = [(t, n) for qq, t, n in sent if qq == q]; got = [struct.unpack(">I", x.payload[:4])[0] for x in c.pubs if struct.unpack(">I", x.payload[:4])[0] in dict(want)]
                if got != [t for t, n in want]: raise Violation("slow reader over %s: order or number of messages wrong: %s" % (kind, diff([t for t, n in want], got) or "order"))
            size = {t: n for q, t, n in sent}
            for x in c.pubs:
                t = struct.unpack(">I", x.payload[:4])[0]
                if bytes(x.payload) != fill(t, size[t]): raise Violation("slow reader over %s: message %d corrupted" % (kind, t))
                ctx.eval((kind, rnd, j, t))
            c.drop()
    ctx.count("bytes_to_slow_readers", sum(c.bytes_in for c in s.w.clients))

def smallbuf(ctx):
    """Write buffer limit reached again and again: messages may be dropped as a whole (QoS 0), never parts of them."""
    r = ctx.rng; s = Site(ctx, client_max_write_buffer_size=100000) if False else None
    S = {"client_max_write_buffer_size": 100000}
    s = Site.__new__(Site); full = dict(BIGQ); full.update(S)
    Site.__init__(s, ctx, **{k: v for k, v in S.items() if k not in BIGQ}) if "client_max_write_buffer_size" not in BIGQ else _site(s, ctx, full)
    p = s.client("tcp", "pub", 4); p.connect(); rs = []; tag = 0
    for i, kind in enumerate(KINDS):
        c = s.client(kind, "sb%d" % i, r.choice([4, 5]), rcvbuf=3000); c.connect(); c.sub("sb/#"); rs.append(c)
    size = {}
    for rnd in range(12 if not ctx.thorough else 80):
        for c in rs: (c.pause if r.random() < 0.7 else c.resume)()
        for i in range(60):
            tag += 1; size[tag] = r.choice([0, 100, 3000, 20000]); p.pub("sb/x", fill(tag, size[tag]), 0)
            if i % 8 == 0: s.w.pump(0)
        s.w.barrier([p])
        for c in rs:
            if r.random() < 0.5: c.resume()
        s.w.settle(0.02)
    for c in rs: c.resume()
    s.w.barrier(rs)
    tag += 1; size[tag] = 5; p.pub("sb/last", fill(tag, 5), 1); s.w.barrier([p], rs)
    for c in rs:
        if not c.open: raise Violation("%s was disconnected" % c.name)
        got = [struct.unpack(">I", x.payload[:4])[0] for x in c.pubs]
        if any(b <= a for a, b in zip(got, got[1:])): raise Violation("%s: duplicated or reordered messages: %s" % (c.name, got[:50]))
        if got[-1:] != [tag]: raise Violation("%s: the last message, with all buffers empty, did not come" % c.name)
        for x in c.pubs:
            t = struct.unpack(">I", x.payload[:4])[0]
            if bytes(x.payload) != fill(t, size[t]): raise Violation("%s: message %d corrupted" % (c.name, t))
        ctx.eval(("sb", c.name, len(got))); ctx.count("delivered_under_pressure", len(got)); ctx.count("dropped_under_pressure", tag - len(got))
def _site(s, ctx, full):
    old = dict(BIGQ)
    try: BIGQ.update(full); Site.__init__(s, ctx)
    finally: BIGQ.clear(); BIGQ.update(old)

# ---------------------------------------------------------------- handshakes in pieces
def handshakes(ctx):
    r = ctx.rng; s = Site(ctx); n = 0
    def finish(k, ver, ws, what, pre=b""):
        nonlocal n; n += 1; got = bytearray(pre); dec = WsDecoder(); mq = bytearray(); enc = (lambda d: ws_frame(d, mask=os.urandom(4))) if ws else (lambda d: d)
        k.sendall(enc(connect(ver, "hs%d" % n) + subscribe(ver, 1, [("hs/%d" % n, 0)])) + enc(publish(ver, "hs/%d" % n, "x" * 300) + PING))
        mq += dec.feed(bytes(got)) if ws else bytes(got)
        try:
            while not mq.endswith(b"\xd0\0"):
                d = k.recv(4096)
                if not d: raise Violation("%s: closed by the broker after %s" % (what, bytes(mq).hex()))
                mq += dec.feed(d) if ws else d
        except (socket.timeout, ConnectionError) as e: raise Violation("%s: no answer: %r" % (what, e))
        if b"x" * 300 not in mq or mq[0] != 0x20 or mq[3] != 0: raise Violation("%s: answered %s" % (what, bytes(mq)[:60].hex()))
        ctx.eval(what); k.close()
    def dial(name): k = socket.create_connection(("127.0.0.1", s.b.ports[name]), 20); k.settimeout(20); k.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); return k
    def send(k, data, sizes):
        for p in cut(data, sizes): k.sendall(p); (time.sleep(0.0005) if r.random() < 0.3 else None)
    ways = [("bytes", lambda: 1), ("random", lambda: r.randint(1, 40)), ("whole", lambda: 1 << 20)]
    heads = ["Host: localhost:1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: %s\r\nSec-WebSocket-Protocol: mqtt\r\nSec-WebSocket-Version: 13\r\n",
             "HOST: x\r\nUPGRADE: WebSocket\r\nCONNECTION: keep-alive, Upgrade\r\nsec-websocket-key: %s\r\nSEC-WEBSOCKET-PROTOCOL: mqttv3.1, mqtt\r\nSec-WebSocket-Version:13\r\n",
             "Sec-WebSocket-Extensions: permessage-deflate; client_max_window_bits\r\nUser-Agent: " + "u" * 900 + "\r\nOrigin: https://a.b\r\nCookie: a=b; c=d\r\nSec-WebSocket-Version: 13\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nHost: h\r\nSec-WebSocket-Key: %s\r\nSec-WebSocket-Protocol: mqtt\r\n",
             "Host: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key:%s\r\nSec-WebSocket-Protocol: mqtt\r\nSec-WebSocket-Version: 13\r\nX-Real-IP: 10.9.8.7\r\n" + "".join("X-H%d: %s\r\n" % (i, "v" * 50) for i in range(30))]
    for ver in (3, 4, 5):
        for wn, wf in ways:
            for hi, h in enumerate(heads):
                for port in ("ws", "pxws"):
                    what = "websocket handshake %d sent in %s to %s, MQTT %d" % (hi, wn, port, ver); ctx.step(what); k = dial(port); key = base64.b64encode(os.urandom(16)).decode()
                    k.sendall(proxy_v2() if port == "pxws" else b""); send(k, ("GET /%s HTTP/1.1\r\n" % r.choice(["", "mqtt", "a/b?c=d"]) + h % key + "\r\n").encode(), wf); got = b""
                    try:
                        while b"\r\n\r\n" not in got:
                            d = k.recv(1)
                            if not d: break
                            got += d
                    except socket.timeout: pass
                    want = base64.b64encode(hashlib.sha1((key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11").encode()).digest())
                    if not got.startswith(b"HTTP/1.1 101") or want not in got or not re.search(rb"(?im)^sec-websocket-protocol: *mqtt(v3\.1)?\r", got): raise Violation("%s: answered %r" % (what, got[:300]))
                    finish(k, ver, True, what)
            for tl in () if wn == "bytes" else (b"",    # (the PROXY specification lets receivers refuse headers in several segments)
                       b"\x04\0\x05hello", b"\x02\0\x09localhost\x05\0\x04abcd", b"\x04\x03\xe8" + b"\0" * 1000):
                for src, fam in ((("10.1.2.3", 4444), 0x11), (("2001:db8::7", 4444), 0x21)):
                    what = "PROXY header (%s, %d TLV bytes), MQTT %d" % (src[0], len(tl), ver); ctx.step(what)
                    k = dial("px"); k.sendall(proxy_v2(src, ("10.0.0.1", 1883) if fam == 0x11 else ("2001:db8::1", 1883), tl, False, fam)); finish(k, ver, False, what)
            what = "CONNECT behind the PROXY header in one segment, MQTT %d" % ver; k = dial("px"); n += 1; k.sendall(proxy_v2() + connect(ver, "one%d" % n) + PING); got = b""
            try:
                while not got.endswith(b"\xd0\0"):
                    d = k.recv(100)
                    if not d: raise Violation(what + ": closed")
                    got += d
            except socket.timeout: raise Violation(what + ": no answer")
            k.close(); ctx.eval((what, wn))
        # TLS: the client's last handshake record and its first packets in one segment
        for tk in ("tls12", "tls13"):
            for port in ("tls", "pxtls"):
                for wn, wf in ways:
                    k = dial(port); what = "%s handshake in %s on %s, MQTT %d" % (tk, wn, port, ver); ctx.step(what)
                    if port == "pxtls": k.sendall(proxy_v2())
                    i, o = ssl.MemoryBIO(), ssl.MemoryBIO(); t = s.tls[tk].wrap_bio(i, o, server_hostname="localhost"); n += 1
                    while True:
                        try: t.do_handshake(); break
                        except ssl.SSLWantReadError:
                            send(k, o.read(), wf); d = k.recv(65536)
                            if not d: raise Violation(what + ": closed")
                            i.write(d)
                    t.write(connect(ver, "tlsx%d" % n)); t.write(PING); send(k, o.read(), wf); got = b""
                    while not got.endswith(b"\xd0\0"):
                        try: d = t.read(1000)
                        except ssl.SSLWantReadError:
                            try: d = k.recv(65536)
                            except socket.timeout: raise Violation(what + ": no answer to packets right behind the handshake")
                            if not d: raise Violation(what + ": closed")
                            i.write(d); continue
                        got += d
                    if got[:1] != b"\x20": raise Violation(what + ": answered %s" % got.hex())
                    k.close(); ctx.eval(what)
