"""Independent MQTT 3.1 / 3.1.1 / 5.0 codec (strict decoder for server packets) and monitored clients."""
import socket, selectors, struct, time, os, hashlib, base64, ssl as _ssl, errno

CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, PINGREQ, PINGRESP, DISCONNECT, AUTH = range(1, 16)
NAMES = {1: "CONNECT", 2: "CONNACK", 3: "PUBLISH", 4: "PUBACK", 5: "PUBREC", 6: "PUBREL", 7: "PUBCOMP", 8: "SUBSCRIBE", 9: "SUBACK",
         10: "UNSUBSCRIBE", 11: "UNSUBACK", 12: "PINGREQ", 13: "PINGRESP", 14: "DISCONNECT", 15: "AUTH"}

# property id -> (name, type, packets the server may send it in)
B, H, I, V, S, D, P2 = "byte", "u16", "u32", "varint", "str", "bin", "pair"
PROPS = {
    1: ("payload_format", B, {PUBLISH}), 2: ("expiry", I, {PUBLISH}), 3: ("content_type", S, {PUBLISH}),
    8: ("response_topic", S, {PUBLISH}), 9: ("correlation", D, {PUBLISH}), 11: ("sub_id", V, {PUBLISH}),
    17: ("session_expiry", I, {CONNACK}), 18: ("assigned_id", S, {CONNACK}), 19: ("server_keepalive", H, {CONNACK}),
    21: ("auth_method", S, {CONNACK, AUTH}), 22: ("auth_data", D, {CONNACK, AUTH}), 23: ("req_problem", B, set()), 24: ("will_delay", I, set()),
    25: ("req_response", B, set()), 26: ("response_info", S, {CONNACK}), 28: ("server_reference", S, {CONNACK, DISCONNECT}),
    31: ("reason_string", S, {CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH}),
    33: ("receive_max", H, {CONNACK}), 34: ("topic_alias_max", H, {CONNACK}), 35: ("topic_alias", H, {PUBLISH}),
    36: ("max_qos", B, {CONNACK}), 37: ("retain_available", B, {CONNACK}),
    38: ("user", P2, {CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH}),
    39: ("max_packet", I, {CONNACK}), 40: ("wildcard_available", B, {CONNACK}), 41: ("subid_available", B, {CONNACK}), 42: ("shared_available", B, {CONNACK}),
}
PID = {v[0]: k for k, v in PROPS.items()}

class Malformed(Exception): pass

def varint(n):
    out = b""
    while True:
        b = n & 127; n >>= 7
        if n: out += bytes([b | 128])
        else: return out + bytes([b])

def mstr(s):
    if isinstance(s, str): s = s.encode()
    return struct.pack(">H", len(s)) + s

def props(d):
    """d: list of (name, value) or dict."""
    out = b""
    items = d.items() if isinstance(d, dict) else (d or [])
    for k, v in items:
        pid = k if isinstance(k, int) else PID[k]
        t = PROPS[pid][1]
        out += bytes([pid])
        if t == B: out += bytes([v])
        elif t == H: out += struct.pack(">H", v)
        elif t == I: out += struct.pack(">I", v)
        elif t == V: out += varint(v)
        elif t in (S, D): out += mstr(v)
        elif t == P2: out += mstr(v[0]) + mstr(v[1])
    return varint(len(out)) + out

def packet(ptype, flags, body):
    return bytes([ptype << 4 | flags]) + varint(len(body)) + body

def connect(ver, cid, clean=True, keepalive=60000, user=None, pw=None, will=None, pr=None, proto=None, level=None, flags_xor=0):
    """will: dict(topic, payload, qos, retain, props)."""
    name = proto if proto is not None else ("MQIsdp" if ver == 3 else "MQTT")
    fl = 2 if clean else 0
    if will: fl |= 4 | will.get("qos", 0) << 3 | (32 if will.get("retain") else 0)
    if user is not None: fl |= 128
    if pw is not None: fl |= 64
    b = mstr(name) + bytes([ver if level is None else level, fl ^ flags_xor]) + struct.pack(">H", keepalive)
    if ver == 5: b += props(pr)
    b += mstr(cid)
    if will:
        if ver == 5: b += props(will.get("props"))
        b += mstr(will["topic"]) + mstr(will["payload"])
    if user is not None: b += mstr(user)
    if pw is not None: b += mstr(pw)
    return packet(CONNECT, 0, b)

def publish(ver, topic, payload, qos=0, retain=False, pid=None, dup=False, pr=None):
    if isinstance(payload, str): payload = payload.encode()
    b = mstr(topic)
    if qos: b += struct.pack(">H", pid)
    if ver == 5: b += props(pr)
    return packet(PUBLISH, (8 if dup else 0) | qos << 1 | (1 if retain else 0), b + payload)

def ack(ver, ptype, pid, rc=0, pr=None):
    b = struct.pack(">H", pid)
    if ver == 5 and (rc or pr):
        b += bytes([rc])
        if pr: b += props(pr)
    return packet(ptype, 2 if ptype == PUBREL else 0, b)

def subscribe(ver, pid, subs, pr=None):
    """subs: list of (filter, qos or options byte)."""
    b = struct.pack(">H", pid)
    if ver == 5: b += props(pr)
    for f, o in subs: b += mstr(f) + bytes([o])
    return packet(SUBSCRIBE, 2, b)

def subopt(qos=0, no_local=False, rap=False, rh=0):
    return qos | (4 if no_local else 0) | (8 if rap else 0) | rh << 4

def unsubscribe(ver, pid, filters, pr=None):
    b = struct.pack(">H", pid)
    if ver == 5: b += props(pr)
    for f in filters: b += mstr(f)
    return packet(UNSUBSCRIBE, 2, b)

def disconnect(ver, rc=0, pr=None):
    if ver == 5 and (rc or pr):
        return packet(DISCONNECT, 0, bytes([rc]) + (props(pr) if pr else b""))
    return packet(DISCONNECT, 0, b"")

def auth(rc, pr): return packet(AUTH, 0, bytes([rc]) + props(pr))

PING = packet(PINGREQ, 0, b"")

class Pkt:
    __slots__ = ("type", "flags", "pid", "topic", "payload", "qos", "retain", "dup", "props", "rc", "codes", "sp", "seq", "size", "wire_topic", "t", "raw")
    def __init__(self):
        self.pid = self.topic = self.payload = self.rc = self.codes = self.sp = self.wire_topic = None
        self.qos = 0; self.retain = self.dup = False; self.props = []; self.seq = 0; self.size = 0; self.t = 0; self.raw = None
    def prop(self, name):
        for k, v in self.props:
            if k == name: return v
        return None
    def propall(self, name): return [v for k, v in self.props if k == name]
    def __repr__(self):
        if self.type == PUBLISH:
            return "PUBLISH(%r %r q%d r%d d%d pid=%s %s)" % (self.topic, bytes(self.payload[:40]), self.qos, self.retain, self.dup, self.pid, self.props)
        return "%s(pid=%s rc=%s codes=%s sp=%s %s)" % (NAMES.get(self.type, self.type), self.pid, self.rc, self.codes, self.sp, self.props)

class Reader:
    def __init__(self, b): self.b = b; self.i = 0
    def need(self, n):
        if self.i + n > len(self.b): raise Malformed("field beyond end of packet")
    def u8(self): self.need(1); v = self.b[self.i]; self.i += 1; return v
    def u16(self): self.need(2); v = struct.unpack_from(">H", self.b, self.i)[0]; self.i += 2; return v
    def u32(self): self.need(4); v = struct.unpack_from(">I", self.b, self.i)[0]; self.i += 4; return v
    def var(self):
        v = 0
        for k in range(4):
            b = self.u8(); v |= (b & 127) << 7 * k
            if not b & 128:
                if k and b == 0: raise Malformed("non-minimal varint")
                return v
        raise Malformed("varint too long")
    def bin(self): n = self.u16(); self.need(n); v = bytes(self.b[self.i:self.i + n]); self.i += n; return v
    def str(self):
        v = self.bin()
        try: s = v.decode("utf-8")
        except UnicodeDecodeError: raise Malformed("bad utf-8 %r" % v)
        if "\0" in s: raise Malformed("NUL in string")
        return s
    def rest(self): v = bytes(self.b[self.i:]); self.i = len(self.b); return v
    def left(self): return len(self.b) - self.i

def read_props(r, ptype):
    n = r.var(); end = r.i + n
    if end > len(r.b): raise Malformed("properties beyond packet")
    out = []; seen = set()
    while r.i < end:
        pid = r.u8()
        if pid not in PROPS: raise Malformed("unknown property %d" % pid)
        name, t, allowed = PROPS[pid]
        if ptype not in allowed: raise Malformed("property %s not allowed in %s" % (name, NAMES[ptype]))
        if pid in seen and name not in ("user", "sub_id"): raise Malformed("duplicate property " + name)
        seen.add(pid)
        if t == B: v = r.u8()
        elif t == H: v = r.u16()
        elif t == I: v = r.u32()
        elif t == V: v = r.var()
        elif t == S: v = r.str()
        elif t == D: v = r.bin()
        else: v = (r.str(), r.str())
        out.append((name, v))
    if r.i != end: raise Malformed("property length mismatch")
    return out

RC5 = {
    CONNACK: {0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F},
    PUBACK: {0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99}, PUBREC: {0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99},
    PUBREL: {0, 0x92}, PUBCOMP: {0, 0x92},
    SUBACK: {0, 1, 2, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2}, UNSUBACK: {0, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91},
    AUTH: {0, 0x18, 0x19},
}

def decode(ver, b0, body):
    """Strictly decode one server->client packet."""
    p = Pkt(); p.type = b0 >> 4; p.flags = b0 & 15; p.size = len(body) + 1 + len(varint(len(body)))
    r = Reader(body); t = p.type
    if t == PUBLISH:
        p.qos = p.flags >> 1 & 3; p.retain = bool(p.flags & 1); p.dup = bool(p.flags & 8)
        if p.qos == 3: raise Malformed("QoS 3")
        if p.dup and p.qos == 0: raise Malformed("DUP with QoS 0")
        p.topic = r.str(); p.wire_topic = p.topic
        if "#" in p.topic or "+" in p.topic: raise Malformed("wildcard in topic of PUBLISH")
        if p.qos:
            p.pid = r.u16()
            if p.pid == 0: raise Malformed("packet id 0")
        if ver == 5: p.props = read_props(r, t)
        if not p.topic and p.prop("topic_alias") is None: raise Malformed("empty topic without alias")
        p.payload = r.rest()
        return p
    if (p.flags != 2) if t == PUBREL else p.flags: raise Malformed("flags %x in %s" % (p.flags, NAMES.get(t, t)))
    if t == CONNACK:
        f = r.u8(); p.sp = f & 1
        if f & ~1: raise Malformed("connack flags")
        if ver == 3 and f: raise Malformed("session present in 3.1 connack")
        p.rc = r.u8()
        if p.rc and p.sp: raise Malformed("session present with error")
        if ver == 5: p.props = read_props(r, t)
        elif p.rc > 5: raise Malformed("connack return code %d" % p.rc)
    elif t in (PUBACK, PUBREC, PUBREL, PUBCOMP):
        p.pid = r.u16(); p.rc = 0
        if p.pid == 0: raise Malformed("packet id 0")
        if ver == 5 and r.left():
            p.rc = r.u8()
            if r.left(): p.props = read_props(r, t)
    elif t in (SUBACK, UNSUBACK):
        p.pid = r.u16()
        if p.pid == 0: raise Malformed("packet id 0")
        if ver == 5: p.props = read_props(r, t)
        p.codes = list(r.rest())
        if t == UNSUBACK and ver < 5 and p.codes: raise Malformed("codes in v3 unsuback")
        if t == SUBACK and ver == 3 and any(c > 2 and c != 128 for c in p.codes): raise Malformed("suback code")
        if t == SUBACK and ver == 4 and any(c > 2 and c != 128 for c in p.codes): raise Malformed("suback code")
        if t == SUBACK and not p.codes: raise Malformed("empty suback")
    elif t == PINGRESP: pass
    elif t == DISCONNECT:
        if ver < 5: raise Malformed("DISCONNECT from server in MQTT 3")
        p.rc = r.u8() if r.left() else 0
        if r.left(): p.props = read_props(r, t)
    elif t == AUTH:
        if ver < 5: raise Malformed("AUTH in MQTT 3")
        p.rc = r.u8() if r.left() else 0
        if r.left(): p.props = read_props(r, t)
    else:
        raise Malformed("server sent %s" % NAMES.get(t, t))
    if r.left(): raise Malformed("trailing bytes in %s" % NAMES[t])
    if ver == 5 and t in RC5:
        for c in (p.codes if p.codes is not None else [p.rc]):
            if c not in RC5[t]: raise Malformed("reason code 0x%02x in %s" % (c, NAMES[t]))
    return p

class Violation(Exception):
    """The property is broken (message says how)."""

class Timeout(Exception):
    """Something awaited did not come. Reported as a violation if it repeats."""

# ------------------------------------------------------------------ transports
class WsDecoder:
    """Decodes server->client websocket frames; collects payload bytes of binary frames; strict."""
    def __init__(self): self.buf = bytearray(); self.frag = None; self.pongs = []; self.closed = None; self.frames = 0
    def feed(self, data):
        self.buf += data; out = b""
        while True:
            if len(self.buf) < 2: return out
            b0, b1 = self.buf[0], self.buf[1]
            if b0 & 0x70: raise Malformed("websocket RSV bits")
            if b1 & 0x80: raise Malformed("server masks websocket frames")
            n = b1 & 127; i = 2
            if n == 126:
                if len(self.buf) < 4: return out
                n = struct.unpack_from(">H", self.buf, 2)[0]; i = 4
                if n < 126: raise Malformed("non-minimal websocket length")
            elif n == 127:
                if len(self.buf) < 10: return out
                n = struct.unpack_from(">Q", self.buf, 2)[0]; i = 10
                if n < 65536: raise Malformed("non-minimal websocket length")
            if len(self.buf) < i + n: return out
            pay = bytes(self.buf[i:i + n]); del self.buf[:i + n]
            op = b0 & 15; fin = b0 & 128; self.frames += 1
            if op in (8, 9, 10):
                if not fin or n > 125: raise Malformed("bad control frame")
                if op == 10: self.pongs.append(pay)
                if op == 8: self.closed = pay
            elif op == 2:
                if self.frag is not None: raise Malformed("new data frame inside fragmented message")
                out += pay
                if not fin: self.frag = True
            elif op == 0:
                if self.frag is None: raise Malformed("continuation without start")
                out += pay
                if fin: self.frag = None
            else: raise Malformed("websocket opcode %d" % op)

def ws_frame(payload, op=2, mask=b"\x01\x02\x03\x04", fin=True, lenform=None):
    n = len(payload); h = bytes([(128 if fin else 0) | op])
    lf = lenform or (7 if n < 126 else 16 if n < 65536 else 64)
    if lf == 7: h += bytes([128 | n])
    elif lf == 16: h += bytes([128 | 126]) + struct.pack(">H", n)
    else: h += bytes([128 | 127]) + struct.pack(">Q", n)
    if mask == b"\0\0\0\0": return h + mask + payload
    m = (mask * (n // 4 + 1))[:n]
    return h + mask + (int.from_bytes(payload, "big") ^ int.from_bytes(m, "big")).to_bytes(n, "big") if n else h + mask

def proxy_v2(src=("10.1.2.3", 4444), dst=("10.0.0.1", 1883), tlvs=b"", local=False, fam=0x11):
    if fam == 0x11: addr = socket.inet_aton(src[0]) + socket.inet_aton(dst[0]) + struct.pack(">HH", src[1], dst[1])
    elif fam == 0x21: addr = socket.inet_pton(socket.AF_INET6, src[0]) + socket.inet_pton(socket.AF_INET6, dst[0]) + struct.pack(">HH", src[1], dst[1])
    else: addr = b""
    body = addr + tlvs
    return b"\r\n\r\n\0\r\nQUIT\n" + bytes([0x20 if local else 0x21, fam]) + struct.pack(">H", len(body)) + body

class World:
    """One event loop for all clients of a case. Records everything."""
    def __init__(self, name=""):
        self.sel = selectors.DefaultSelector(); self.clients = []; self.seq = 0; self.name = name
        self.events = 0; self.broker = None
    def next(self): self.seq += 1; return self.seq
    def pump(self, t=0.0):
        """Process what is readable; wait at most t for the first event. Returns number of socket events."""
        n = 0
        for key, mask in self.sel.select(t):
            n += 1
            key.data._ready(mask)
        return n
    def until(self, cond, timeout=30.0, what=""):
        end = time.monotonic() + timeout
        k = 0
        while True:
            v = cond()
            if v: return v
            if time.monotonic() > end: raise Timeout("timeout (%gs) waiting for %s" % (timeout, what() if callable(what) else what))
            self.pump(0.05)
            k += 1
            if self.broker is not None and k % 20 == 0: self.broker.check_alive()
    def settle(self, t=0.05):
        end = time.monotonic() + t
        while True:
            left = end - time.monotonic()
            if left <= 0: return
            self.pump(left)
    def barrier(self, *groups, timeout=60.0):
        """Each group of clients in turn: PINGREQ, wait for PINGRESP. Closed clients are skipped."""
        for g in groups:
            g = [c for c in g if c.open and c.connected]
            for c in g:
                c.ping_sent += 1; c.send(PING)
            self.until(lambda: all(c.pongs >= c.ping_sent or not c.open for c in g), timeout, "PINGRESP of " + ",".join(c.name for c in g if c.open and c.pongs < c.ping_sent)[:200])
    def close(self):
        for c in self.clients: c.drop()
        self.sel.close()

class Client:
    """A monitored client connection. Monitors: strict decoding, in-flight ids and window, aliases, max packet size, unexpected acks."""
    def __init__(self, world, broker, cid, ver=4, listener=None, ws=False, tls=None, unix=None, proxy=None, ack=True, name=None,
                 raw_mode=False, rcvbuf=None, src=None, ws_frame_size=None, port=None):
        self.w = world; self.b = broker; self.cid = cid; self.ver = ver; self.ack = ack; self.name = name or cid or "anon"
        self.inbox = []; self.pubs = []; self.open = True; self.connected = False; self.connack = None; self.eof_seq = None
        self.pongs = 0; self.ping_sent = 0; self.next_pid = 0; self.disc = None; self.in_alias = {}; self.alias_max = 0; self.max_packet = None
        self.recv_max = 65535; self.unacked = {}; self.max_seen_inflight = 0; self.slack = 0; self.hold = set(); self.resumed = set(); self.pending_rel = set()
        self.acks = {}; self.paused = False; self.buf = bytearray(); self.outbuf = bytearray(); self.errors = []
        self.ws = None; self.raw = bytearray() if raw_mode else None; self.bytes_in = 0; self.expect_alias_bound = True
        self.on_publish = None; self.on_packet = None; self.ws_frame_size = ws_frame_size; self.want_write = False; self.tlsobj = None; self.raw_mode = raw_mode
        self.will = None; self.ws_hs = None; self.ids_free_check = None
        world.clients.append(self)
        if unix:
            s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        else:
            s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if rcvbuf: s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.settimeout(20)
        if src: s.bind((src, 0))
        for attempt in range(40):
            try:
                s.connect(unix if unix else ("127.0.0.1", port or broker.port)); break
            except (ConnectionRefusedError, BlockingIOError):
                if attempt == 39: raise
                time.sleep(0.05)
        if proxy is not None: s.sendall(proxy)
        if tls is not None:
            s = tls.wrap_socket(s, server_hostname="localhost")
            self.tlsobj = s
        if ws:
            key = base64.b64encode(os.urandom(16)).decode()
            s.sendall(("GET /mqtt HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: %s\r\nSec-WebSocket-Protocol: mqtt\r\nSec-WebSocket-Version: 13\r\n\r\n" % key).encode())
            resp = b""
            while b"\r\n\r\n" not in resp:
                d = s.recv(1)
                if not d: raise Timeout("websocket handshake refused: %r" % resp)
                resp += d
            want = base64.b64encode(hashlib.sha1((key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11").encode()).digest())
            if b" 101 " not in resp.split(b"\r\n")[0] or want not in resp: raise Violation("websocket handshake answer wrong: %r" % resp)
            self.ws = WsDecoder()
        s.setblocking(False)
        self.s = s
        self.w.sel.register(s, selectors.EVENT_READ, self)

    # -------------------------------------------------- sending
    def send(self, data):
        if not self.open: return
        if self.ws is not None and data:
            if self.ws_frame_size:
                data = b"".join(ws_frame(data[i:i + self.ws_frame_size], mask=os.urandom(4)) for i in range(0, len(data), self.ws_frame_size))
            else: data = ws_frame(data, mask=os.urandom(4))
        self.send_raw(data)
    def send_raw(self, data):
        if not self.open: return
        self.outbuf += data
        self._flush()
    def _flush(self):
        try:
            while self.outbuf:
                n = self.s.send(self.outbuf[:262144])
                del self.outbuf[:n]
        except (BlockingIOError, _ssl.SSLWantWriteError, _ssl.SSLWantReadError): pass
        except OSError: self.outbuf.clear()
        self._mask()
    def _mask(self):
        if not self.open: return
        m = (0 if self.paused else selectors.EVENT_READ) | (selectors.EVENT_WRITE if self.outbuf else 0)
        try:
            if m == 0:
                if self.s in self.w.sel.get_map(): self.w.sel.unregister(self.s)
            elif self.s in self.w.sel.get_map(): self.w.sel.modify(self.s, m, self)
            else: self.w.sel.register(self.s, m, self)
        except (KeyError, ValueError): pass
    def pause(self): self.paused = True; self._mask()
    def resume(self): self.paused = False; self._mask()

    def pid(self):
        self.next_pid = self.next_pid % 65535 + 1
        return self.next_pid

    # -------------------------------------------------- receiving
    def _ready(self, mask):
        if mask & selectors.EVENT_WRITE: self._flush()
        if not mask & selectors.EVENT_READ or not self.open: return
        for _ in range(64):
            try: d = self.s.recv(262144)
            except (BlockingIOError, _ssl.SSLWantReadError, _ssl.SSLWantWriteError): break
            except (OSError, _ssl.SSLError): d = b""
            if not d: self._eof(); return
            self.bytes_in += len(d)
            self.feed(d)
            if self.paused: break
            if self.tlsobj is None and len(d) < 262144: break
    def _eof(self):
        self.open = False; self.eof_seq = self.w.next()
        try: self.w.sel.unregister(self.s)
        except (KeyError, ValueError): pass
        self.s.close()
    def drop(self, rst=False):
        """Break the connection without DISCONNECT."""
        if not self.open: return
        self.open = False
        try: self.w.sel.unregister(self.s)
        except (KeyError, ValueError): pass
        try:
            if rst: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.s.close()
        except OSError: pass
    def fail(self, msg):
        raise Violation("client %s (v%d): %s" % (self.name, self.ver, msg))
    def feed(self, d):
        if self.ws is not None:
            try: d = self.ws.feed(d)
            except Malformed as e: self.fail("broken websocket stream: %s" % e)
        if self.raw is not None: self.raw += d
        self.buf += d
        while True:
            if len(self.buf) < 2: return
            n = 0; i = 1
            while True:
                if i >= len(self.buf): return
                b = self.buf[i]; n |= (b & 127) << 7 * (i - 1); i += 1
                if not b & 128: break
                if i > 4: self.fail("remaining length longer than 4 bytes")
            if len(self.buf) < i + n: return
            b0 = self.buf[0]; body = bytes(self.buf[i:i + n]); del self.buf[:i + n]
            try: p = decode(self.ver, b0, body)
            except Malformed as e: self.fail("received malformed %s: %s: %r" % (NAMES.get(b0 >> 4, b0 >> 4), e, (bytes([b0]) + body)[:120]))
            p.size = i + n
            self.handle(p)
    def handle(self, p):
        p.seq = self.w.next(); p.t = time.monotonic(); self.w.events += 1
        t = p.type
        if self.connack is None and t not in (CONNACK, AUTH) and not (t == DISCONNECT): self.fail("%r before CONNACK" % p)
        if self.max_packet and p.size > self.max_packet: self.fail("%s of %d bytes exceeds Maximum Packet Size %d" % (NAMES[t], p.size, self.max_packet))
        self.inbox.append(p)
        if t == CONNACK:
            if self.connack is not None: self.fail("second CONNACK")
            self.connack = p
            if p.rc == 0: self.connected = True
        elif t == PINGRESP:
            self.pongs += 1
            if self.pongs > self.ping_sent: self.fail("unasked PINGRESP")
        elif t == DISCONNECT: self.disc = p
        elif t == PUBLISH: self._publish(p)
        elif t == PUBREL:
            if p.pid not in self.unacked and p.pid not in self.pending_rel and self.ack:
                pass    # resumed exchange from an earlier connection
            if p.pid not in self.unacked and p.pid not in self.pending_rel: self.resumed.add(p.pid)
            self.pending_rel.discard(p.pid)
            if self.ack:
                self._resumed_done(p.pid)
                self.unacked.pop(p.pid, None)
                self.send(ack(self.ver, PUBCOMP, p.pid))
        elif t in (PUBACK, PUBREC, PUBCOMP, SUBACK, UNSUBACK):
            self.acks.setdefault((t, p.pid), []).append(p)
            if t == PUBREC and self.ack and (p.rc or 0) < 0x80 and p.pid not in self.hold: self.send(ack(self.ver, PUBREL, p.pid))
        if self.on_packet and self.open: self.on_packet(p)
    def _publish(self, p):
        if self.ver == 5:
            a = p.prop("topic_alias")
            if a is not None:
                if a == 0 or a > self.alias_max: self.fail("topic alias %d outside of maximum %d" % (a, self.alias_max))
                if p.topic: self.in_alias[a] = p.topic
                elif a in self.in_alias: p.topic = self.in_alias[a]
                else: self.fail("alias %d was never bound" % a)
        if p.qos:
            if p.pid in self.unacked and not (p.dup): self.fail("packet id %d reused while in flight: %r" % (p.pid, p))
            self.unacked[p.pid] = p.qos
            self.max_seen_inflight = max(self.max_seen_inflight, len(self.unacked))
            if len(self.unacked) > self.recv_max + self.slack: self.fail("%d unacknowledged publishes exceed Receive Maximum %d" % (len(self.unacked), self.recv_max))
        self.pubs.append(p)
        if self.on_publish: self.on_publish(p)
        if self.ack and p.qos == 1: self.do_ack(PUBACK, p.pid)
        elif self.ack and p.qos == 2: self.send(ack(self.ver, PUBREC, p.pid))
    def _resumed_done(self, pid):
        # MQTT 5 section 4.9: a PUBCOMP gives a slot back, also when its PUBLISH was sent on an earlier connection.
        if pid in self.resumed: self.resumed.discard(pid); self.slack += 1
    def do_ack(self, t, pid, rc=0):
        """Send PUBACK / PUBREC / PUBCOMP; keeps the in-flight monitor in step."""
        if t in (PUBACK, PUBCOMP) or rc >= 0x80: self.unacked.pop(pid, None)
        if t == PUBCOMP: self._resumed_done(pid)
        self.send(ack(self.ver, t, pid, rc))

    # -------------------------------------------------- conveniences (all wait)
    def connect(self, clean=True, keepalive=60000, user=None, pw=None, will=None, pr=None, wait=True, expect=0, cid=None, timeout=30.0):
        pr = list((pr.items() if isinstance(pr, dict) else pr) or [])
        for k, v in pr:
            if k == "topic_alias_max": self.alias_max = v
            if k == "max_packet": self.max_packet = v
            if k == "receive_max": self.recv_max = v
        self.will = will
        self.send(connect(self.ver, self.cid if cid is None else cid, clean, keepalive, user, pw, will, pr))
        if wait:
            self.w.until(lambda: self.connack or not self.open, timeout, "CONNACK for %s" % self.name)
            if expect is not None:
                if self.connack is None: raise Violation("connection of %s closed instead of CONNACK" % self.name)
                if self.connack.rc != expect: raise Violation("CONNACK code 0x%02x for %s, expected 0x%02x" % (self.connack.rc, self.name, expect))
        return self
    def wait_ack(self, t, pid, timeout=30.0):
        self.w.until(lambda: self.acks.get((t, pid)) or not self.open, timeout, "%s %d for %s" % (NAMES[t], pid, self.name))
        if not self.acks.get((t, pid)): raise Violation("connection of %s closed while waiting for %s (%r)" % (self.name, NAMES[t], self.disc))
        return self.acks[(t, pid)].pop(0)
    def sub(self, *subs, pr=None, wait=True, check=True):
        """subs: (filter, options byte) or filter."""
        subs = [(x, 0) if isinstance(x, str) else x for x in subs]
        pid = self.pid()
        self.send(subscribe(self.ver, pid, subs, pr))
        if wait:
            a = self.wait_ack(SUBACK, pid)
            if len(a.codes) != len(subs): raise Violation("SUBACK has %d codes for %d filters" % (len(a.codes), len(subs)))
            if check:
                for (f, o), c in zip(subs, a.codes):
                    if c != (o & 3): raise Violation("SUBACK code %d for %r (QoS %d)" % (c, f, o & 3))
            return a
        return pid
    def unsub(self, *filters, wait=True):
        pid = self.pid()
        self.send(unsubscribe(self.ver, pid, filters))
        if wait: return self.wait_ack(UNSUBACK, pid)
        return pid
    def pub(self, topic, payload, qos=0, retain=False, pr=None, wait=True):
        pid = self.pid() if qos else None
        self.send(publish(self.ver, topic, payload, qos, retain, pid, pr=pr))
        if not wait: return pid
        if qos == 1: return self.wait_ack(PUBACK, pid)
        if qos == 2:
            a = self.wait_ack(PUBREC, pid)
            if (a.rc or 0) >= 0x80: return a
            if not self.ack: self.send(ack(self.ver, PUBREL, pid))
            return self.wait_ack(PUBCOMP, pid)
    def disconnect(self, rc=0, pr=None, wait=True):
        self.send(disconnect(self.ver, rc, pr))
        if wait: self.wait_closed()
    def wait_closed(self, timeout=30.0):
        self.w.until(lambda: not self.open, timeout, "close of %s" % self.name)
