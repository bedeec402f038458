from common import *
import ssl, socket, select
from lib import certs
RULE = ("Streams from a grammar of MQTT 3.1/3.1.1/5 sessions (all packet types and properties) are mutated (bit flips, boundary bytes, cuts, insertions, duplications, splices, wrong lengths, reordering) and sent, arbitrarily segmented, to MQTT, websocket, PROXY, PROXY+websocket, TLS and ACME listeners of a broker with address, undefined-behaviour and library assertions "
        "sanitizers, while a canary pair exchanges QoS 1 messages that must arrive exactly once and in time; directed floods (endless headers and fragments, announced giant packets, topics of 65535 levels, ping floods) watch memory and time. Evaluation = one stream survived; distinct by its bytes (hash) and listener.")
BUDGET = {"quick": 420}
CASE_LIMIT = 400

def cases(tier, rng):
    n = 1 if tier == "quick" else 8
    out = [("fuzz-%d" % i, "fuzz", {"k": i, "n": 1500 if tier == "quick" else 6000}) for i in range(12 * n)]
    out += [("trunc-%d" % v, "trunc", {"ver": v}) for v in (3, 4, 5)]
    out += [("deep", "deep"), ("wsflood", "wsflood"), ("big", "big"), ("pingflood", "pingflood"), ("churn", "churn")]
    return out

STR = ["", "a", "a/b", "a/+/c", "#", "+", "$share/g/a", "$share//a", "$share/g", "$SYS/#", "é/日", "a\0b", b"\xff\xfe", b"\xed\xa0\x80", "x" * 300, "/", "//", "$", "+a", "a#", "%u", "../../x", "a" * 65535, "/" * 3000]
def rs(r): return r.choice(STR[:16]) if r.random() < 0.9 else r.choice(STR)
def rprops(r):
    out = []
    for _ in range(r.choice([0, 0, 1, 2, 5])):
        pid = r.choice(list(PROPS)); t = PROPS[pid][1]
        v = r.choice([0, 1, 2, 127, 255]) if t == B else r.choice([0, 1, 65535, 10]) if t == H else r.choice([0, 1, 0xffffffff, 0x7fffffff, 30]) if t == I else r.choice([0, 1, 127, 128, 268435455]) if t == V else rs(r) if t in (S, D) else (rs(r), rs(r))
        out.append((pid, v))
    return out
def rpacket(r, ver):
    k = r.random(); pid = r.choice([0, 1, 2, 3, 65535])
    if k < 0.35: return publish(ver, rs(r), bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 100]))) if r.random() < 0.95 else b"z" * r.choice([3000, 70000]), r.choice([0, 0, 1, 2, 3]), r.random() < 0.4, pid, r.random() < 0.1, rprops(r))
    if k < 0.55: return subscribe(ver, pid, [(rs(r), r.choice([0, 1, 2, 3, 5, 0x2e, 0x3f, 255])) for _ in range(r.choice([0, 1, 1, 3]))], rprops(r))
    if k < 0.62: return unsubscribe(ver, pid, [rs(r) for _ in range(r.choice([0, 1, 2]))], rprops(r))
    if k < 0.82: return ack(ver, r.choice([PUBACK, PUBREC, PUBREL, PUBCOMP]), pid, r.choice([0, 0, 0x10, 0x80, 0x92, 255]), rprops(r))
    if k < 0.87: return PING
    if k < 0.90: return disconnect(ver, r.choice([0, 4, 0x81, 255]), rprops(r))
    if k < 0.94: return auth(r.choice([0, 0x18, 0x19]), rprops(r))
    return packet(r.randrange(16), r.randrange(16), bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 10]))))
def rsession(r):
    ver = r.choice([3, 4, 5, 5]); out = []
    if r.random() < 0.97:
        will = {"topic": rs(r), "payload": rs(r), "qos": r.randint(0, 3), "retain": r.random() < 0.5, "props": rprops(r)} if r.random() < 0.35 else None
        good = r.random() < 0.7
        out.append(connect(ver, "f%d" % r.randrange(300) if good else rs(r), r.random() < 0.8, r.choice([0, 1, 60, 65535]), None if good else r.choice([None, "u", rs(r)]), r.choice([None, None, "p", rs(r)]) if not good else None,
                           will if not good or r.random() < 0.2 else None, rprops(r) if not good or r.random() < 0.3 else [("session_expiry", 1)] if ver == 5 else None, flags_xor=r.choice([0] * 12 + [1, 255])))
    for _ in range(r.choice([0, 1, 3, 8])): out.append(rpacket(r, ver))
    return out
def mutate(r, parts):
    for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
        if not parts: break
        i = r.randrange(len(parts)); d = bytearray(parts[i]); k = r.randrange(10); n = len(d)
        if n == 0: continue
        p = r.randrange(min(n, r.choice([2, 12, 40, n])))
        if k == 0: d[p] ^= 1 << r.randrange(8)
        elif k == 1: d[p] = r.choice([0, 1, 127, 128, 255])
        elif k == 2: d = d[:p]
        elif k == 3: d[p:p] = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 4, 30])))
        elif k == 4: del d[p:p + r.choice([1, 2, 4])]
        elif k == 5: parts.insert(i, bytes(d)); continue
        elif k == 6: q = r.randrange(len(parts)); parts[i], parts[q] = parts[q], parts[i]; continue
        elif k == 7 and n > 3: struct.pack_into(">H", d, min(p, n - 2), r.choice([0, 1, 255, 256, 32767, 32768, 65535, n & 65535]))
        elif k == 8: d[1:2] = r.choice([b"\xff\xff\xff\x7f", b"\xff\xff\xff\xff", b"\x80\x80\x80\x00", b"\x80\x80\x80\x80\x01", b"\x00", b"\x01", b"\x7f", b"\x80\x01"])
        elif k == 9:
            other = parts[r.randrange(len(parts))]; d = d[:p] + other[r.randrange(len(other) + 1):]
        parts[i] = bytes(d)
    return parts
def wswrap(r, data, wild):
    out = []; i = 0
    while i < len(data):
        n = r.choice([1, 5, 125, 126, 127, 1000, 65535, 65536, len(data)]); chunk = data[i:i + n]; i += n
        f = ws_frame(chunk, mask=r.choice([b"\0\0\0\0", os.urandom(4)]), fin=r.random() < 0.9, op=2 if r.random() < 0.9 else r.randrange(16), lenform=r.choice([None, None, None, 16, 64]) if n < 126 else None)
        if wild and r.random() < 0.3:
            d = bytearray(f); d[r.randrange(min(len(d), 14))] = r.choice([0, 1, 126, 127, 128, 254, 255, r.randrange(256)]); f = bytes(d)
        out.append(f)
        if r.random() < 0.15: out.append(ws_frame(os.urandom(r.choice([0, 5, 125, 126, 200])) if wild or r.random() < 0.5 else b"hi", op=r.choice([8, 9, 9, 10]), mask=os.urandom(4)))
        if wild and r.random() < 0.05: out.append(bytes([0x82, 0xff]) + struct.pack(">Q", r.choice([1 << 63, (1 << 64) - 1, 1 << 32, 65536, 0])) + b"mask")
    return out
HS = "GET /mqtt HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Protocol: mqtt\r\nSec-WebSocket-Version: 13\r\n\r\n"
def handshake(r, wild):
    if not wild: return HS.encode()
    lines = HS.split("\r\n")[:-2]
    for _ in range(r.choice([0, 1, 2])):
        k = r.randrange(8); i = r.randrange(len(lines))
        if k == 0: del lines[i]
        elif k == 1: lines.insert(i, lines[i])
        elif k == 2: lines.insert(i, "X-%s: %s" % ("a" * r.choice([0, 1, 500]), "b" * r.choice([0, 1, 3000])))
        elif k == 3: lines[i] = lines[i][:r.randrange(len(lines[i]) + 1)]
        elif k == 4: lines[i] = lines[i].replace(":", r.choice(["", "::", " :"]))
        elif k == 5: lines[i] = r.choice(["X-Forwarded-For: 1.2.3.4", "X-Real-IP: x", "X-Real-IP: 1.2.3.4", "Sec-WebSocket-Version: 99999999999", "Sec-WebSocket-Version: -1", "Sec-WebSocket-Version: x", "Sec-WebSocket-Key: ", "GET /", "GET", "", "POST / HTTP/1.1", "GET / HTTP/9.9"])
        elif k == 6: lines[i] = lines[i].upper()
        elif k == 7: lines[i] = "".join(chr(r.randrange(1, 256)) for _ in range(20))
        if not lines: break
    return ("\r\n".join(lines) + r.choice(["\r\n\r\n"] * 4 + ["\n\n", "\r\n", ""])).encode("latin-1", "replace")
def tlv(t, v): return bytes([t]) + struct.pack(">H", len(v)) + v
def proxyhdr(r, wild):
    t = b""
    for _ in range(r.choice([0, 0, 1, 3])): t += tlv(r.choice([1, 2, 3, 4, 5, 0x30, 0xee]), os.urandom(r.choice([0, 1, 20, 300])))
    if r.random() < 0.4:
        sub = b"".join(tlv(r.choice([0x21, 0x22, 0x22, 0x23, 0x20]), r.choice([b"TLSv1.3", b"cn", b"", b"\xff", b"\x01\0\0\0\0"])) for _ in range(r.choice([0, 1, 2, 4])))
        t += tlv(0x20, (b"\x01\0\0\0\0" if r.random() < 0.9 else os.urandom(r.randrange(6))) + sub)
    fam = r.choice([0x11, 0x11, 0x21, 0x00, 0x31, 0x12, 0x22, 0x41])
    h = proxy_v2(src=("10.1.2.3", 4444) if fam != 0x21 else ("::1", 1), dst=("10.0.0.1", 1883) if fam != 0x21 else ("::2", 2), tlvs=t, local=r.random() < 0.2, fam=fam)
    if wild:
        d = bytearray(h)
        for _ in range(r.choice([0, 1, 1, 2])):
            k = r.randrange(4); p = r.randrange(len(d))
            if k == 0: d[p] ^= 1 << r.randrange(8)
            elif k == 1: d = d[:p] or d
            elif k == 2 and len(d) > 1: struct.pack_into(">H", d, 14 if len(d) > 16 else 0, r.choice([0, 1, 12, 216, 65535, len(d) & 65535]))
            elif k == 3 and len(d) > 28: struct.pack_into(">H", d, 29 if len(d) > 31 else 14, r.choice([0, 1, 65535, 4]))
        h = bytes(d)
    return h

class Canary:
    def __init__(self, ctx, w, b, port):
        self.w, self.b, self.ctx = w, b, ctx; self.topic = "canary/%x" % random.SystemRandom().randrange(1 << 60); self.got = []; self.n = 0; self.worst = 0
        self.s = Client(w, b, "canary-s%x" % random.SystemRandom().randrange(1 << 60), 5, port=port); self.s.connect(); self.s.on_publish = lambda p: self.got.append(bytes(p.payload)); self.s.sub((self.topic, 1))
        self.p = Client(w, b, "canary-p%x" % random.SystemRandom().randrange(1 << 60), 4, port=port); self.p.connect()
    def sing(self):
        self.n += 1; pay = b"sing%d" % self.n; t0 = time.monotonic()
        self.p.pub(self.topic, pay, 1); self.w.until(lambda: pay in self.got or not self.s.open, 40, "canary message (other clients are not served)")
        if not (self.s.open and self.p.open): raise Violation("canary connection was closed")
        if self.got != [pay]: raise Violation("canary received %r instead of %r" % (self.got[:3], pay))
        self.got.clear(); d = time.monotonic() - t0; self.worst = max(self.worst, d); self.ctx.peak("canary_ms", int(d * 1000))
        if d > 30: raise Violation("canary message took %.1f s" % d)

class Flock:
    """Many raw connections at once."""
    def __init__(self, b, limit=24): self.b = b; self.limit = limit; self.live = []
    def add(self, port, pieces, linger=0.0, tls=None, rst=False):
        try:
            s = socket.create_connection(("127.0.0.1", port), 10)
            if tls is not None: s = tls.wrap_socket(s, server_hostname="localhost")
        except (OSError, ssl.SSLError): return
        s.settimeout(5)
        try:
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            for p in pieces: s.sendall(p)
        except (OSError, ssl.SSLError): pass
        s.setblocking(False)
        self.live.append((s, time.monotonic() + linger, rst))
        while len(self.live) > self.limit: self.reap(True)
    def reap(self, force=False):
        now = time.monotonic(); keep = []
        for i, (s, t, rst) in enumerate(self.live):
            done = force and i == 0
            try:
                while True:
                    d = s.recv(65536)
                    if not d: done = True; break
            except (BlockingIOError, ssl.SSLWantReadError): pass
            except (OSError, ssl.SSLError): done = True
            if done or now > t and len(self.live) > self.limit // 2:
                try:
                    if rst: s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    s.close()
                except OSError: pass
            else: keep.append((s, t, rst))
        self.live = keep
    def close(self):
        for s, _, _ in self.live:
            try: s.close()
            except OSError: pass
        self.live = []

def make(ctx, quarantine=64, **kw):
    c = dict(BIGQ)
    c.update(kw.pop("conf", {}))
    b = ctx.broker(start=False, threads=3, conf=c, **kw); b.quarantine = quarantine; certs.ca(b.dir); certs.cert(b.dir, "srv", "localhost"); b.start()
    return b

def pieces(r, data):
    k = r.random()
    if k < 0.5 or len(data) < 2: return [data]
    if k < 0.6 and len(data) < 200: return [data[i:i + 1] for i in range(len(data))]
    cuts = sorted(r.sample(range(1, len(data)), min(len(data) - 1, r.choice([1, 2, 5]))))
    return [data[x:y] for x, y in zip([0] + cuts, cuts + [len(data)])]

def fuzz(ctx, k, n):
    r = ctx.rng
    L = [{"name": "tcp"}, {"name": "ws", "protocol": "websockets"}, {"name": "px", "haproxy": "on"}, {"name": "pxws", "protocol": "websockets", "haproxy": "on"}, {"name": "pxcn", "haproxy": "client_verification"},
         {"name": "tls", "fullchain": "{dir}/srv.crt", "privkey": "{dir}/srv.key"}, {"name": "wss", "protocol": "websockets", "fullchain": "{dir}/srv.crt", "privkey": "{dir}/srv.key"},
         {"name": "acme", "acme_redirect_url": "http://example.org/x"}]
    conf = {"expire_sessions_after_seconds": 60}
    if k % 3 == 1: conf.update(max_packet_size=5000, max_string_length=1000, max_incoming_topic_alias_value=5, max_qos_msg_pending_per_client=40)
    if k % 3 == 2: conf.update(retained_messages_mode=r.choice(["drop", "downgrade", "enabled"]), shared_subscription_targeting="sender_hash", subscription_identifiers_enabled="false")
    if k % 4 == 3: conf.update(mosquitto_acl_file="{dir}/acl", mosquitto_password_file="{dir}/pw")
    b = make(ctx, listeners=L, conf=conf, files={"acl": "topic readwrite #\npattern readwrite %u/%c/#\n", "pw": ""}, leaks=True)
    w = ctx.world(b); can = Canary(ctx, w, b, b.ports["tcp"])
    t = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); t.check_hostname = False; t.verify_mode = ssl.CERT_NONE
    fl = Flock(b); corpus = []; rss = None
    for i in range(n):
        parts = mutate(r, rsession(r))
        if corpus and r.random() < 0.1: parts += r.choice(corpus)
        if r.random() < 0.2: corpus.append(parts[-3:]); del corpus[:-50]
        data = b"".join(parts); kind = r.choice(["tcp"] * 5 + ["ws"] * 3 + ["px", "pxws", "pxcn", "px"] + ["acme", "rawtls"] + (["tls", "wss"] if r.random() < 0.2 else []))
        wild = r.random() < 0.5; pre = b""
        if kind in ("px", "pxws", "pxcn"): pre = proxyhdr(r, wild and r.random() < 0.7)
        if kind in ("ws", "pxws", "wss"):
            hs = handshake(r, wild and r.random() < 0.5); fr = wswrap(r, data, wild); data = hs + b"".join(fr)
        if kind == "acme" and r.random() < 0.5: data = ("GET %s HTTP/1.1\r\nHost: x\r\n%s\r\n\r\n" % (r.choice(["/.well-known/acme-challenge/abc", "/.well-known/acme-challenge/", "/", "x" * 4000, "/.well-known/acme-challenge/\r"]), r.choice(["", "A: b"]))).encode() + data[:r.choice([0, 50])]
        ps = ([pre] if pre and r.random() < 0.7 else []); rest = data if ps else pre + data
        ps += pieces(r, rest)
        ctx.step(kind, b"".join(ps)[:140].hex())
        fl.add(b.ports["tls" if kind == "rawtls" else kind], ps, 0.02, t if kind in ("tls", "wss") else None, r.random() < 0.2)
        if r.random() < 0.3: fl.reap()
        ctx.eval((kind, hash(b"".join(ps)))); ctx.count("streams_" + kind)
        if i % 120 == 119:
            can.sing()
            if r.random() < 0.3: b.advance(r.choice([1, 6, 11]))
        if i == n // 2: rss = b.rss_kb()
    fl.close(); can.sing()
    tick_any(w, b, can); ctx.peak("rss_kb", b.rss_kb())
    if b.rss_kb() > (rss or 0) + 250000: raise Violation("memory grew from %d to %d kB during the second half" % (rss, b.rss_kb()))
    n0 = b.fds(); w.until(lambda: b.fds() < 60, 20, "closed connections to be removed (%d descriptors)" % n0)
    ctx.sample({"last streams": ctx.script[-3:]})
    can.s.disconnect(); can.p.disconnect()

def tick_any(w, b, can):
    for _ in range(3): w.barrier([can.s, can.p])

def trunc(ctx, ver):
    """Every valid packet cut at every position, with the remaining length as announced or corrected, and every byte set to boundary values."""
    r = ctx.rng; b = make(ctx, listeners=[{"name": "tcp"}], leaks=True); w = ctx.world(b); can = Canary(ctx, w, b, b.ports["tcp"]); fl = Flock(b, 40)
    allp = [(1, 1), (2, 60), (3, "t/x"), (8, "r/x"), (9, b"cd"), (35, 1), (38, ("k", "v")), (38, ("k", "w"))]
    will = {"topic": "w/t", "payload": "pay", "qos": 1, "props": [(24, 5), (1, 1), (2, 9), (3, "c"), (8, "r"), (9, b"d"), (38, ("a", "b"))]}
    con = connect(ver, "tr", True, 60, "user", "pw", will, [(17, 5), (33, 10), (39, 100000), (34, 3), (25, 1), (23, 1), (38, ("x", "y"))])
    c0 = connect(ver, "tr0", True, 60, pr=[(34, 5)])
    ps = [con, publish(ver, "t/x", "payload", 1, True, 7, pr=allp), publish(ver, "t", "", 0), subscribe(ver, 3, [("a/+", 1), ("$share/g/b/#", 2)], [(11, 5), (38, ("k", "v"))]), unsubscribe(ver, 4, ["a/+", "b"], [(38, ("k", "v"))]),
          ack(ver, PUBACK, 3, 0x10, [(31, "r"), (38, ("k", "v"))]), ack(ver, PUBREC, 3, 0x80, [(31, "r")]), ack(ver, PUBREL, 3, 0x92, [(31, "r")]), ack(ver, PUBCOMP, 3, 0x92), PING, disconnect(ver, 4, [(17, 5), (31, "bye"), (38, ("k", "v"))])]
    if ver == 5: ps.append(auth(0x18, [(21, "M"), (22, b"d"), (31, "r"), (38, ("k", "v"))]))
    i = 0
    def go(d):
        nonlocal i; i += 1
        fl.add(b.ports["tcp"], [d], 0.01); ctx.eval(hash(d)); ctx.step(d[:140].hex())
        if i % 200 == 0: fl.reap(); can.sing()
    for p in ps:
        lead = b"" if p is con else c0
        for cut in range(len(p)):
            go(lead + p[:cut])
            k = 2    # header length of these packets
            if cut >= k: go(lead + p[:1] + varint(cut - k) + p[k:cut] + PING)
        for pos in range(len(p)):
            for v in ([0, 1, 0x7f, 0x80, 0xff, p[pos] ^ 1] if ctx.thorough else [0, 255, r.choice([1, 0x7f, 0x80, p[pos] ^ 1])]): go(lead + p[:pos] + bytes([v]) + p[pos + 1:] + PING)
    fl.close(); can.sing(); can.s.disconnect(); can.p.disconnect()

def deep(ctx):
    """Very deep topics and filters, in every place a topic can appear."""
    b = make(ctx, listeners=[{"name": "tcp"}], storage=True, leaks=True, conf={"max_topic_split_depth": 1000, "max_string_length": 65535}); w = ctx.world(b); can = Canary(ctx, w, b, b.ports["tcp"])
    for lv in (10, 1000, 20000, 65535):
        for base in ("", "a"):
            t = "/".join([base] * (lv if base == "" else (lv + 1) // 2))[:65535]; tp = "/".join(["+"] * ((lv + 1) // 2))
            for ver in (4, 5):
                c = Client(w, b, "deep%d%s%d" % (lv, base, ver), ver); c.will = None
                c.connect(clean=False, will={"topic": t, "payload": "will", "qos": 1, "retain": True}, pr={"session_expiry": 50} if ver == 5 else None, expect=None)
                for step in (lambda: c.sub((t, 1), check=False), lambda: c.sub((tp, 1), check=False), lambda: c.sub(("$share/g/" + t[:60000], 1), check=False), lambda: c.pub(t, "x", 1, True), lambda: c.pub(t, "x", 2), lambda: c.sub(("#", 0), check=False), lambda: c.unsub(t)):
                    if not c.open: c = Client(w, b, c.cid, ver); c.connect(clean=False)
                    try: step()
                    except Violation:
                        if c.open: raise
                    can.sing(); ctx.eval((lv, base, ver, ctx.evals))
                c.drop()
    b.advance(11); tick(w, b, 3); b.advance(4000); tick(w, b, 3); tick(w, b, 3); can.sing()
    for c in list(w.clients): c.drop()
    b.stop(timeout=120); b.start(); w2 = ctx.world(b); can = Canary(ctx, w2, b, b.ports["tcp"]); can.sing()
    for c in list(w2.clients): c.drop()

def wsflood(ctx):
    """Websocket and HTTP inputs that never end."""
    b = make(ctx, listeners=[{"name": "tcp"}, {"name": "ws", "protocol": "websockets"}, {"name": "pxws", "protocol": "websockets", "haproxy": "on"}, {"name": "px", "haproxy": "on"}, {"name": "acme", "acme_redirect_url": "http://e.org"}])
    w = ctx.world(b); can = Canary(ctx, w, b, b.ports["tcp"]); base = b.rss_kb()
    def endless(port, start, gen, what, mb=40, must_close=True):
        s = socket.create_connection(("127.0.0.1", port), 10); s.settimeout(10); n = 0; closed = False; rss0 = b.rss_kb()
        try:
            s.sendall(start)
            while n < mb << 20:
                d = gen(); s.sendall(d); n += len(d)
        except socket.timeout: pass
        except OSError: closed = True
        if must_close and not closed:
            try:
                s.settimeout(5); e = time.monotonic() + 5
                while time.monotonic() < e:
                    if not s.recv(65536): closed = True; break
            except (OSError, socket.timeout): closed = isinstance(sys.exc_info()[1], ConnectionError)
        can.sing(); grown = b.rss_kb() - rss0; ctx.peak("growth_kb", grown)
        if grown > 100000: raise Violation("memory grew by %d kB through %s" % (grown, what))
        if must_close and not closed: raise Violation("%s: %d bytes accepted without closing the connection" % (what, n))
        s.close(); ctx.eval(what)
    ws, con = b.ports["ws"], connect(5, "wf")
    big = b"x" * 65536
    endless(ws, b"GET / HTTP/1.1\r\n", lambda: b"A: " + big + b"\r\n", "endless HTTP headers")
    endless(ws, b"GET /", lambda: big, "endless HTTP request line")
    endless(b.ports["acme"], b"GET / HTTP/1.1\r\n", lambda: b"A: " + big + b"\r\n", "endless headers on an ACME listener")
    endless(ws, HS.encode() + ws_frame(con), lambda: ws_frame(b"p" * 125, op=9) * 400, "ping flood", must_close=False, mb=10)
    endless(ws, HS.encode() + ws_frame(con), lambda: bytes([0x89, 0xff]) + struct.pack(">Q", 1 << 40) + b"mask" + big, "giant ping", must_close=True)
    endless(ws, HS.encode() + ws_frame(con), lambda: ws_frame(b"", fin=False, op=0) * 5000, "empty fragments", must_close=False, mb=5)
    endless(ws, HS.encode() + bytes([0x82, 0xff]) + struct.pack(">Q", 1 << 62) + b"\0\0\0\0" + con, lambda: big, "giant frame", must_close=True)
    endless(b.ports["px"], proxy_v2()[:10], lambda: big, "truncated PROXY header")
    endless(b.ports["px"], b"\r\n\r\n\0\r\nQUIT\n\x21\x11\xff\xff" + b"\0" * 12, lambda: big, "PROXY header with 64 kB")
    can.s.disconnect(); can.p.disconnect()

def big(ctx):
    """Announced giant packets, before and after authentication."""
    b = make(ctx, listeners=[{"name": "tcp"}], conf={"max_packet_size": 10000000}); w = ctx.world(b); can = Canary(ctx, w, b, b.ports["tcp"]); base = b.rss_kb()
    ss = []
    for i in range(60):
        s = socket.create_connection(("127.0.0.1", b.port), 10); ver = r_ver = [4, 5][i % 2]
        s.sendall((connect(ver, "big%d" % i) if i % 3 else b"") + bytes([0x30]) + varint(9999000 if i % 3 else 1000000) + b"\0\1t" + b"x" * 1000); ss.append(s); ctx.eval(i)
    can.sing(); grown = b.rss_kb() - base
    if grown > 150000: raise Violation("announcing packets without sending them took %d kB" % grown)
    for s in ss: s.close()
    c = Client(w, b, "too", 5); c.connect(); c.send_raw(bytes([0x30]) + varint(10000001) + b"\0\1t"); w.until(lambda: not c.open, 10, "close after an announced packet beyond the limit"); can.sing()
    for i in range(10):
        c = Client(w, b, "big", 5); c.connect(); c.sub("t"); c.pub("t", b"y" * 9900000, 0); w.until(lambda: c.pubs, 30, "a big message"); c.drop(); can.sing(); ctx.eval(("send", i))
    for c in list(w.clients): c.drop()

def pingflood(ctx):
    """Requests without reading the answers must not fill the memory."""
    b = make(ctx, quarantine=0, listeners=[{"name": "tcp"}], conf={"client_max_write_buffer_size": 100000, "max_packet_size": 1000000}); w = ctx.world(b); can = Canary(ctx, w, b, b.ports["tcp"])
    for what, one in [("PINGREQ", PING), ("SUBSCRIBE", subscribe(5, 1, [("a", 0)] * 3)), ("QoS 1 PUBLISH", publish(5, "x", "y", 1, False, 3)), ("UNSUBSCRIBE", unsubscribe(5, 2, ["z"] * 100)), ("QoS 2 PUBREL", ack(5, PUBREL, 9)), ("PUBLISH to itself", publish(5, "self", b"z" * 1000, 0))]:
        base = b.rss_kb()
        s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096); s.connect(("127.0.0.1", b.port)); s.settimeout(3)
        chunk = one * (65536 // len(one)); n = 0; closed = False
        try:
            s.sendall(connect(5, "pf") + subscribe(5, 1, [("self", 0)]))
            end = time.monotonic() + 6
            while n < (30 << 20) and time.monotonic() < end: s.sendall(chunk); n += len(chunk)
        except socket.timeout: pass
        except OSError: closed = True
        can.sing(); grown = b.rss_kb() - base; ctx.peak("growth_kb", grown); ctx.count("flood_bytes", n); ctx.count("closed", closed)
        if grown > 60000: raise Violation("%s flood without reading: memory grew by %d kB after %d bytes" % (what, grown, n))
        s.close(); can.sing(); ctx.eval(what)
    can.s.disconnect(); can.p.disconnect()

def churn(ctx):
    """Connections that appear and vanish at every stage."""
    r = ctx.rng; b = make(ctx, listeners=[{"name": "tcp"}, {"name": "ws", "protocol": "websockets"}, {"name": "tls", "fullchain": "{dir}/srv.crt", "privkey": "{dir}/srv.key"}, {"name": "px", "haproxy": "on"}], leaks=True)
    w = ctx.world(b); can = Canary(ctx, w, b, b.ports["tcp"]); n0 = b.fds()
    for i in range(2500 if ctx.tier == "quick" else 20000):
        kind = r.choice(["tcp", "ws", "tls", "px"]); s = socket.socket(); s.settimeout(5)
        try:
            s.connect(("127.0.0.1", b.ports[kind])); full = {"tcp": connect(5, "ch") + PING, "ws": HS.encode() + ws_frame(connect(5, "ch")), "tls": b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03" + bytes(40), "px": proxy_v2() + connect(5, "ch")}[kind]
            s.sendall(full[:r.randrange(len(full) + 1)])
            if r.random() < 0.3: s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError: pass
        if r.random() < 0.2: s.shutdown(socket.SHUT_WR) if r.random() < 0.5 else time.sleep(0.0005)
        s.close(); ctx.eval((kind, i % 500))
        if i % 250 == 249: can.sing()
    w.until(lambda: b.fds() <= n0, 20, "closed connections to be removed (%d, were %d)" % (b.fds(), n0))
    can.s.disconnect(); can.p.disconnect()
