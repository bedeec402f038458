from common import *
import socket, re
RULE = ("A hand-written table of every kind of MQTT violation (and its valid neighbours and boundary values) on all versions, and byte-mutated packets classified by an independent strict decoder of client packets (valid / violation / left open by the specification), each sent on a fresh connection of a client with a will or a persistent session. Oracle: a violation ends the connection (MQTT 5: with an error code at most) and no observer, "
        "retained store or session shows an effect of it; a valid packet is answered and has its effect and the connection stays. Evaluation = one packet judged; distinct by (version, bytes).")
BUDGET = {"quick": 420}

def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    out = [("table-%d-%d" % (v, i), "table", {"ver": v, "part": i}) for v in (3, 4, 5) for i in range(2)]
    out += [("valid-%d" % v, "valid", {"ver": v}) for v in (3, 4, 5)]
    out += [("diff-%d-%d" % (v, i), "differential", {"ver": v, "k": i, "n": 450 if tier == "quick" else 4000}) for i in range(6 * n) for v in (3, 4, 5) if v == 5 or i % 2 == 0]
    out += [("limits", "limits")]
    return out

# ---------------------------------------------------------------- reference decoder of client packets
class Bad(Exception): pass
class Grey(Exception): pass
CPROPS = {  # allowed in
    1: {PUBLISH, "will"}, 2: {PUBLISH, "will"}, 3: {PUBLISH, "will"}, 8: {PUBLISH, "will"}, 9: {PUBLISH, "will"}, 11: {SUBSCRIBE}, 17: {CONNECT, DISCONNECT}, 21: {CONNECT, AUTH}, 22: {CONNECT, AUTH}, 23: {CONNECT}, 24: {"will"}, 25: {CONNECT},
    31: {PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT, AUTH}, 33: {CONNECT}, 34: {CONNECT}, 35: {PUBLISH}, 38: {CONNECT, PUBLISH, "will", PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, UNSUBSCRIBE, DISCONNECT, AUTH}, 39: {CONNECT}}

class CR(Reader):
    grey = False
    def need(self, n):
        if self.i + n > len(self.b): raise Bad("field beyond end of packet")
    def str(self):
        v = self.bin()
        try: s = v.decode("utf-8")
        except UnicodeDecodeError: raise Bad("bad utf-8")
        if "\0" in s: raise Bad("NUL in string")
        if any(ord(ch) < 32 or 127 <= ord(ch) < 160 or ord(ch) & 0xfffe == 0xfffe or 0xfdd0 <= ord(ch) <= 0xfdef for ch in s): self.grey = True    # disallowed code points: MAY be refused
        return s
    def var(self):
        n0 = self.i
        try: v = Reader.var(self)
        except Malformed as e:
            if "non-minimal" in str(e): raise Grey("non-minimal length")
            raise Bad("varint")
        return v
    def props(self, where):
        n = self.var(); end = self.i + n
        if end > len(self.b): raise Bad("properties beyond the packet")
        out = []; seen = set()
        while self.i < end:
            pid = self.u8()
            if pid >= 128: raise Bad("property identifier")
            if pid not in CPROPS or where not in CPROPS[pid]: raise Bad("property %d not allowed" % pid)
            if pid in seen and pid != 38: raise Bad("duplicate property %d" % pid)
            seen.add(pid); t = PROPS[pid][1]
            v = self.u8() if t == B else self.u16() if t == H else self.u32() if t == I else self.var() if t == V else self.str() if t == S else self.bin() if t == D else (self.str(), self.str())
            if pid in (1, 23, 25) and v > 1: raise Bad("value of property %d" % pid)
            if pid in (33, 39, 35, 11) and v == 0: raise Bad("property %d is zero" % pid)
            if pid == 8 and ("+" in v or "#" in v): raise Bad("wildcard in response topic")
            if pid == 8 and not v: self.grey = True
            out.append((pid, v))
        if self.i != end: raise Bad("property length")
        return out
def okfilter(f):
    if not f: return False
    L = f.split("/")
    return all((x in "+#" and len(x) == 1 if ("+" in x or "#" in x) else True) and (x != "#" or i == len(L) - 1) for i, x in enumerate(L))
def cdecode(ver, b0, body, st):
    """One packet of an established connection. Returns dict of facts, raises Bad / Grey. st: alias state."""
    t, fl = b0 >> 4, b0 & 15; r = CR(body); o = {"type": t}
    if t == PUBLISH:
        o["qos"] = fl >> 1 & 3
        if o["qos"] == 3: raise Bad("QoS 3")
        topic = o["topic"] = r.str()
        if o["qos"]:
            o["pid"] = r.u16()
            if not o["pid"]: raise Bad("packet id 0")
        pr = dict(p for p in (r.props(PUBLISH) if ver == 5 else []) if p[0] != 38)
        if "+" in topic or "#" in topic: raise Bad("wildcard in topic")
        if 35 in pr and pr[35] > st["alias_max"]: raise Bad("alias beyond the maximum")
        if not topic and (35 not in pr or pr[35] not in st["alias"]): raise Bad("no topic")
        o["topic"] = topic or st["alias"][pr[35]]; o["retain"] = fl & 1; o["props"] = pr
        o["payload"] = r.rest()
        if fl & 8 and not o["qos"]: raise Grey("DUP with QoS 0")
        if 1 in pr and pr[1] == 1:
            try: 
                if "\0" in o["payload"].decode(): raise Grey("payload format")
                q = CR(mstr(o["payload"])) if len(o["payload"]) < 65536 else None
                if q: q.str(); r.grey |= q.grey
            except (UnicodeDecodeError, Bad): raise Grey("payload format")
        if topic.startswith("$"): r.grey = True
    elif t in (PUBACK, PUBREC, PUBREL, PUBCOMP):
        if fl != (2 if t == PUBREL else 0): raise Bad("flags")
        o["pid"] = r.u16()
        if not o["pid"]: raise Bad("packet id 0")
        if ver < 5 and r.left(): raise Grey("trailing bytes")
        if r.left():
            rc = r.u8()
            if rc not in ({0, 0x92} if t in (PUBREL, PUBCOMP) else {0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99}): r.grey = True
            if r.left():
                try: r.props(t)
                except Bad: raise Grey("reasons and properties of acknowledgements may be ignored")
    elif t == SUBSCRIBE:
        if fl != 2: raise Bad("flags")
        o["pid"] = r.u16()
        if not o["pid"]: raise Bad("packet id 0")
        if ver == 5: o["props"] = r.props(t)
        o["subs"] = []
        if not r.left(): raise Bad("empty list")
        while r.left():
            f = r.str(); q = r.u8()
            if q & 3 == 3 or q & (0xc0 if ver == 5 else 0xfc) or q >> 4 & 3 == 3: raise Bad("subscription options")
            if not okfilter(f): raise Bad("filter %r" % f)
            if f.startswith("$share/"):
                if ver < 5: r.grey = True
                p = f.split("/", 2)
                if len(p) < 3 or not p[1] or not p[2] or "+" in p[1] or "#" in p[1]:
                    if ver == 5: raise Bad("shared filter")
                    raise Grey("shared filter")
                if q & 4: raise Bad("no-local on a shared subscription")
            elif f.startswith("$"): r.grey = True
            o["subs"].append((f, q))
    elif t == UNSUBSCRIBE:
        if fl != 2: raise Bad("flags")
        o["pid"] = r.u16()
        if not o["pid"]: raise Bad("packet id 0")
        if ver == 5: r.props(t)
        if not r.left(): raise Bad("empty list")
        while r.left():
            f = r.str()
            if not okfilter(f): raise Bad("filter")
            if f.startswith("$") and not (ver == 5 and re.match(r"\$share/[^/+#]+/.", f)): r.grey = True
    elif t == PINGREQ:
        if fl: raise Bad("flags")
    elif t == DISCONNECT:
        if fl: raise Bad("flags")
        o["rc"] = 0
        if ver == 5 and r.left():
            o["rc"] = r.u8()
            if o["rc"] not in {0, 4, 0x80, 0x81, 0x82, 0x83, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99}: r.grey = True
            if r.left(): o["props"] = dict(p for p in r.props(t) if p[0] != 38)
    elif t == AUTH and ver == 5: raise Bad("AUTH without authentication method")
    elif t in (CONNACK, SUBACK, UNSUBACK, PINGRESP): raise Grey("packet of a server")
    else: raise Bad("packet type %d" % t)
    if r.left(): raise Grey("trailing bytes")
    if r.grey: raise Grey("left open")
    return o

# ---------------------------------------------------------------- judging one packet
class Stand:
    def __init__(self, ctx, ver, **conf):
        self.ctx, self.ver = ctx, ver
        self.b = ctx.broker(threads=3, conf=dict(dict(BIGQ, max_incoming_topic_alias_value=10, max_string_length=65535, max_topic_split_depth=300), **conf)); self.w = ctx.world(self.b); self.n = 0; self.got = []
        self.o = Client(self.w, self.b, "observer", 5); self.o.connect(); self.o.sub(("#", subopt(0, rap=True))); self.o.on_publish = self.got.append
        self.p = Client(self.w, self.b, "prober", 5); self.p.connect()
        self.retained = set()
    def seen(self):
        self.w.barrier([self.p], [self.o]); g = list(self.got); self.got.clear(); return g
    def attacker(self, expiry=1000, kill=False, alias=True, **kw):
        self.n += 1; c = Client(self.w, self.b, "att%d" % self.n, self.ver); c.ack = True; c.n = self.n
        c.connect(clean=False, will={"topic": "will/%d" % self.n, "payload": "w"}, pr=[("session_expiry", expiry)] if self.ver == 5 and expiry else None, **kw)
        c.sub(("keep/%d" % self.n, 1)); c.st = {"alias_max": 10 if self.ver == 5 else 0, "alias": {}}
        if self.ver == 5 and alias: c.pub("al/x", "first", 0, pr=[("topic_alias", 7)]); c.st["alias"][7] = "al/x"
        self.w.barrier([c]); self.got.clear(); self.w.barrier([self.o]); self.got.clear()
        return c
    def bad(self, name, data, c=None, noresume=False, ignorable=False):
        """A violation on an established connection."""
        c = c or self.attacker(); n = c.n
        self.ctx.step(self.ver, name, data[:100].hex()); self.ctx.eval((self.ver, data))
        mark = c.w.seq; pongs = c.pongs; before = len(c.inbox)
        c.ping_sent += 1; c.send(data + PING)
        try: self.w.until(lambda: not c.open or c.pongs > pongs, 15, "the end of the connection after: " + name)
        except Timeout as e: raise Violation("MQTT %d: %s (%s): neither refused nor answered" % (self.ver, name, data[:60].hex()))
        if c.pongs > pongs and ignorable:
            g = self.seen()
            if g: raise Violation("MQTT %d: %s: had effect %s" % (self.ver, name, g[:3]))
            c.disconnect(); return
        if c.pongs > pongs: raise Violation("MQTT %d: accepted: %s (%s); answers %s" % (self.ver, name, data[:60].hex(), c.inbox[before:][:5]))
        for p in c.inbox[before:]:
            if p.type == DISCONNECT and p.rc < 0x80: raise Violation("%s: DISCONNECT with code %d" % (name, p.rc))
            if p.type in (PUBACK, PUBREC, SUBACK, UNSUBACK, PUBCOMP) and not (getattr(p, "rc", 0) or 0) >= 0x80 and not (p.codes and all(x >= 0x80 for x in p.codes)):
                raise Violation("MQTT %d: %s: refused, but acknowledged with %s" % (self.ver, name, p))
        drops = lambda: [g for g in self.got if g.topic != "will/%d" % n]
        try: self.w.until(lambda: any(g.topic == "will/%d" % n for g in self.got), 5, "the will after: " + name)
        except Timeout:
            if not ignorable: raise Violation("MQTT %d: %s (%s): handled as a valid packet or will lost" % (self.ver, name, data[:60].hex()))
        if any(not g.topic.startswith("will/") for g in self.got): raise Violation("MQTT %d: %s: had effect %s" % (self.ver, name, drops()[:3]))
        self.got.clear()
        if noresume: return
        c2 = Client(self.w, self.b, c.cid, self.ver); c2.connect(clean=False, pr=[("session_expiry", 1000)] if self.ver == 5 else None)
        for t in ("a/b", "keep/%d" % n, "x", "c/d", "bad/1"): self.p.pub(t, "probe", 1)
        self.w.until(lambda: any(p.topic == "keep/%d" % n for p in c2.pubs), 15, "the session's own subscription"); self.w.barrier([c2])
        self.w.barrier([self.p], [c2]); extra = [p for p in c2.pubs if p.topic != "keep/%d" % n]
        if extra: raise Violation("MQTT %d: %s: changed subscriptions: %s" % (self.ver, name, extra[:2]))
        if len(c2.pubs) != 1: raise Violation("MQTT %d: %s: subscription doubled" % (self.ver, name))
        c2.disconnect(); self.seen()
    def badconnect(self, name, data, tail=b"", ignorable=False):
        self.ctx.step(self.ver, name, data[:100].hex()); self.ctx.eval((self.ver, data))
        k = socket.create_connection(("127.0.0.1", self.b.port), 15); k.settimeout(15); got = b""
        k.sendall(data + tail + (b"" if ignorable else publish(4 if self.ver < 5 else 5, "effect", "x")) + PING)
        try:
            while True:
                d = k.recv(4096)
                if not d: break
                got += d
                if got.endswith(b"\xd0\0"): break
        except ConnectionError: pass
        except socket.timeout: raise Violation("MQTT %d: %s (%s): not refused; answer %s" % (self.ver, name, data[:60].hex(), got.hex()))
        k.close()
        if not ignorable and got and (got[0] != 0x20 or got[1] != len(got) - 2 or got[1] < 2 or got[2] or not got[3]): raise Violation("MQTT %d: accepted: %s (%s): answer %s" % (self.ver, name, data[:60].hex(), got.hex()))
        g = self.seen()
        if g: raise Violation("MQTT %d: %s: had effect %s" % (self.ver, name, g[:3]))
    def goodconnect(self, name, data, cid=None):
        self.ctx.step(self.ver, name, data[:100].hex()); self.ctx.eval((self.ver, data))
        c = Client(self.w, self.b, "", self.ver); c.send(data); c.connected = True
        self.w.until(lambda: c.inbox or not c.open, 20, "CONNACK: " + name)
        if not c.inbox or c.inbox[0].type != CONNACK or c.inbox[0].rc: raise Violation("MQTT %d: refused: %s (%s) %s" % (self.ver, name, data[:60].hex(), c.inbox[:2]))
        self.w.barrier([c])
        if not c.open: raise Violation("MQTT %d: disconnected after: %s" % (self.ver, name))
        return c
    def good(self, name, data, c=None, o=None):
        """A valid packet. o: what the decoder says about it."""
        keep = c is not None; c = c or self.attacker(); n = c.n
        self.ctx.step(self.ver, name, data[:100].hex()); self.ctx.eval((self.ver, data))
        if o is None: o = cdecode(self.ver, *split(data), c.st)
        mark = len(c.inbox)
        fail = lambda what: Violation("MQTT %d: valid packet (%s, %s): %s" % (self.ver, name, data[:80].hex(), what))
        t = o["type"]
        if t == PINGREQ: c.ping_sent += 1
        c.send(data)
        if t == DISCONNECT:
            self.w.until(lambda: not c.open, 15, "close after DISCONNECT")
            want = o["rc"] != 0
            if want: self.w.until(lambda: any(g.topic == "will/%d" % n for g in self.got), 15, "the will after DISCONNECT with code %d" % o["rc"])
            else: tick(self.w, self.b, 3)
            if not want and any(g.topic == "will/%d" % n for g in self.got): raise fail("will published after a normal DISCONNECT")
            self.seen(); return
        self.w.barrier([c])
        if not c.open: raise fail("the connection was closed: %s" % c.inbox[-1:])
        new = [p for p in c.inbox[mark:] if p.type != PINGRESP]
        A = lambda ty: [p for p in new if p.type == ty]
        if t == PUBLISH:
            if o["qos"] and len([p for p in new if p.type == (PUBACK if o["qos"] == 1 else PUBREC) and p.pid == o["pid"] and p.rc in (0, 0x10)]) != 1: raise fail("acknowledged with %s" % new[:3])
            pr = o["props"]; g = self.seen()
            if o["qos"] == 2: c.send(ack(self.ver, PUBREL, o["pid"])); self.w.barrier([c])
            if pr.get(2) == 0: pass
            elif len(g) != 1: raise fail("delivered %d times" % len(g))
            else:
                p = g[0]; have = {PID[k]: v for k, v in p.props if k not in ("topic_alias", "user")}; exp = {k: v for k, v in pr.items() if k != 35}
                if have.get(2, 0) in (exp.get(2, 0), exp.get(2, 0) - 1): have.pop(2, 0); exp.pop(2, 0)
                if have.get(1, 0) == exp.get(1, 0): have.pop(1, 0); exp.pop(1, 0)
                if p.topic != o["topic"] or bytes(p.payload) != o["payload"] or have != exp: raise fail("delivered as %r" % p)
            if 35 in pr: c.st["alias"][pr[35]] = o["topic"]
            if o["retain"]: self.p.pub(o["topic"], b"", 1, True); self.seen()
        elif t == SUBSCRIBE:
            s = A(SUBACK)
            if len(s) != 1 or s[0].pid != o["pid"] or s[0].codes != [q & 3 for _, q in o["subs"]]: raise fail("answered with %s" % new[:3])
            subs = dict(o["subs"]); k = len(c.pubs)
            if not any(share(f)[0] for f in subs):
                for f in list(subs)[:3]:
                    t2 = f.replace("#", "zz").replace("+", "yy")
                    if t2.startswith("$"): continue
                    self.p.pub(t2, "probe", 1); exp = sum(match(x, t2) for x in subs)
                    self.w.barrier([self.p], [c]); have = sum(p.topic == t2 and bytes(p.payload) == b"probe" for p in c.pubs[k:]); self.seen()
                    if have < 1 or have > exp + 1: raise fail("probe %r delivered %d times" % (t2, have))
        elif t == UNSUBSCRIBE:
            s = A(UNSUBACK)
            if len(s) != 1 or s[0].pid != o["pid"]: raise fail("answered with %s" % new[:3])
        elif t == PUBREL and (len(A(PUBCOMP)) != 1 or A(PUBCOMP)[0].pid != o["pid"]): raise fail("answered with %s" % new[:3])
        self.seen()
        if not keep: c.disconnect(); self.seen()
def split(d):
    n = i = 0
    while True:
        n |= (d[1 + i] & 127) << 7 * i; i += 1
        if not d[i] & 128: break
    if len(d) != 1 + i + n: raise Bad("length")
    return d[0], d[1 + i:]

BADSTR = ["a\0é".encode(), "\0é/b".encode(), "é\0".encode(), ("a" * 14 + "\0é").encode(), b"a\0b", b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"a\xe2\x82", b"\xf5\x80\x80\x80", b"\xf0\x80\x80\x80", b"\x80"]
def violations(v):
    """(name, bytes) of established connections."""
    pp = lambda *p: list(p) if v == 5 else None
    P = lambda t, pl=b"x", q=0, r=False, pid=9, dup=False, pr=None: publish(v, t, pl, q, r, pid, dup, pr)
    L = []
    add = lambda n, d: L.append((n, d))
    for q in (0, 1, 2):
        for ret in (0, 1):
            if q: add("PUBLISH QoS %d with packet id 0" % q, P("bad/1", "x", q, ret, 0))
            for t in ("bad/+", "#", "bad/#", "ba+d", "bad#/x"): add("PUBLISH to %s" % t, P(t, "x", q, ret))
            add("PUBLISH without topic", P("", "x", q, ret))
            for s in BADSTR: add("PUBLISH to %r" % s, P(s, "x", q, ret))
    for fl in (6, 7, 14, 15): add("PUBLISH QoS 3, flags %x" % fl, bytes([0x30 | fl]) + P("bad/1", "x", 1)[1:])
    add("PUBLISH topic length beyond packet", packet(PUBLISH, 0, b"\0\x50bad"))
    add("PUBLISH with 1 byte", packet(PUBLISH, 0, b"\0")); add("PUBLISH empty", packet(PUBLISH, 0, b""))
    add("PUBLISH QoS 1 without packet id", packet(PUBLISH, 2, b"\0\3bad")); add("PUBLISH QoS 1 with half a packet id", packet(PUBLISH, 2, b"\0\3bad\1"))
    G = ("a/b", 1)
    for fl in (0, 1, 3, 6, 10, 15): add("SUBSCRIBE flags %x" % fl, bytes([0x80 | fl]) + subscribe(v, 3, [G])[1:]); add("UNSUBSCRIBE flags %x" % fl, bytes([0xa0 | fl]) + unsubscribe(v, 3, ["a/b"])[1:])
    add("SUBSCRIBE packet id 0", subscribe(v, 0, [G])); add("UNSUBSCRIBE packet id 0", unsubscribe(v, 0, ["a/b"]))
    add("SUBSCRIBE without filters", subscribe(v, 3, [])); add("UNSUBSCRIBE without filters", unsubscribe(v, 3, []))
    add("SUBSCRIBE empty packet", packet(SUBSCRIBE, 2, b"")); add("SUBSCRIBE half id", packet(SUBSCRIBE, 2, b"\1"))
    for f in ["", "a#", "#/a", "a/#/b", "a+", "+a", "a/+b", "a/b+/c", "##", "a/#b", "++", "+#"] + BADSTR:
        for subs in ([(f, 1)], [G, (f, 1)], [(f, 0), G]): add("SUBSCRIBE to %r" % (subs,), subscribe(v, 3, subs))
    for q in [3, 0x40, 0x80, 0xff] + ([0x30, 0x31, 0x07] if v == 5 else [4, 8, 0x10, 0x20, 0x81]):
        add("SUBSCRIBE with options %x" % q, subscribe(v, 3, [("a/b", q)])); add("SUBSCRIBE with second options %x" % q, subscribe(v, 3, [G, ("c/d", q)]))
    add("SUBSCRIBE without options byte", subscribe(v, 3, [G, ("c/d", 0)])[:1] + varint(len(subscribe(v, 3, [G, ("c/d", 0)])) - 3) + subscribe(v, 3, [G, ("c/d", 0)])[2:-1])
    add("SUBSCRIBE filter beyond packet", packet(SUBSCRIBE, 2, b"\0\3" + (b"\0" if v == 5 else b"") + mstr("a/b") + b"\1\0\x60c"))
    for s in ["", ] + BADSTR: add("UNSUBSCRIBE from %r" % s, unsubscribe(v, 3, ["keep/1", s]))
    for t, nm in ((PUBACK, "PUBACK"), (PUBREC, "PUBREC"), (PUBREL, "PUBREL"), (PUBCOMP, "PUBCOMP")):
        ok = 2 if t == PUBREL else 0
        for fl in (0, 1, 2, 4, 8, 15):
            if fl != ok: add("%s flags %x" % (nm, fl), packet(t, fl, b"\0\5"))
        add(nm + " packet id 0", packet(t, ok, b"\0\0")); add(nm + " empty", packet(t, ok, b"")); add(nm + " half id", packet(t, ok, b"\1"))
        if v < 5: add(nm + " with 3 bytes", packet(t, ok, b"\0\5\0"))
        else:
            add(nm + " with subscription id property", packet(t, ok, b"\0\5\0\2\x0b\1")); add(nm + " property length beyond", packet(t, ok, b"\0\5\0\5\x1f"))
            add(nm + " with two reason strings", packet(t, ok, b"\0\5\0" + props([(31, "a"), (31, "b")]))); add(nm + " with trailing bytes", packet(t, ok, b"\0\5\0\0x"))
    for fl in (1, 2, 4, 8): add("PINGREQ flags %x" % fl, bytes([0xc0 | fl, 0])); add("DISCONNECT flags %x" % fl, bytes([0xe0 | fl, 0]))
    if v < 5: add("DISCONNECT with body", packet(DISCONNECT, 0, b"\0"))
    add("second CONNECT", connect(v, "other")); add("second CONNECT, own id", connect(v, "att1"))
    for t in (CONNACK, SUBACK, UNSUBACK, PINGRESP): add("%s from the client" % NAMES[t], packet(t, 0, {CONNACK: b"\0\0", SUBACK: b"\0\1\0", UNSUBACK: b"\0\1", PINGRESP: b""}[t] if v < 5 else {CONNACK: b"\0\0\0", SUBACK: b"\0\1\0\0", UNSUBACK: b"\0\1\0\0", PINGRESP: b""}[t]))
    add("packet type 0", b"\0\0"); add("packet type 0 with body", b"\0\3abc")
    if v < 5: add("AUTH in MQTT 3", packet(AUTH, 0, b"\0")); add("packet type 15 empty", b"\xf0\0")
    add("remaining length of 5 bytes", b"\x30\x80\x80\x80\x80\1"); add("remaining length ffffffff", b"\x30\xff\xff\xff\xff\x7f"); add("packet beyond the maximum size", b"\x30\xff\xff\xff\x7f")
    if v == 5:
        twice = [(1, 1), (2, 5), (3, "c"), (8, "r"), (9, b"d"), (35, 1)]
        for p in twice: add("PUBLISH with property %d twice" % p[0], P("bad/1", "x", 1, pr=[p, p]))
        for p in [(11, 1), (17, 1), (18, "x"), (19, 1), (21, "m"), (22, b"d"), (23, 1), (24, 1), (25, 1), (26, "x"), (28, "x"), (31, "x"), (33, 1), (34, 1), (36, 1), (37, 1), (39, 1), (40, 1), (41, 1), (42, 1)]:
            add("PUBLISH with property %d" % p[0], P("bad/1", "x", 0, True, pr=[p]))
            if p[0] != 11: add("SUBSCRIBE with property %d" % p[0], subscribe(5, 3, [G], [p]))
            add("UNSUBSCRIBE with property %d" % p[0], unsubscribe(5, 3, ["a/b"], [p]))
            if p[0] not in (17, 31, 28): add("DISCONNECT with property %d" % p[0], disconnect(5, 0, [p]))
        add("PUBLISH with unknown property", packet(PUBLISH, 0, mstr("bad/1") + b"\2\x7f\1x")); add("PUBLISH with property 0", packet(PUBLISH, 0, mstr("bad/1") + b"\2\0\1x")); add("PUBLISH property id of two bytes", packet(PUBLISH, 0, mstr("bad/1") + b"\3\x81\x01\1x"))
        add("PUBLISH payload format 2", P("bad/1", pr=[(1, 2)])); add("PUBLISH alias 0", P("bad/1", pr=[(35, 0)])); add("PUBLISH alias too high", P("bad/1", pr=[(35, 11)])); add("PUBLISH alias 65535", P("bad/1", pr=[(35, 65535)])); add("PUBLISH unknown alias", P("", pr=[(35, 3)])); add("PUBLISH known alias above the limit and wildcard", P("+", pr=[(35, 7)]))
        for s in BADSTR:
            for pid in (3, 8): add("PUBLISH property %d = %r" % (pid, s), P("bad/1", "x", 0, True, pr=[(pid, s)]))
            add("PUBLISH user property name %r" % s, P("bad/1", "x", 1, pr=[(38, (s, "v"))])); add("PUBLISH user property value %r" % s, P("bad/1", "x", 1, pr=[(38, ("k", s))]))
        for rt in ("a/+", "#", "+"): add("response topic %s" % rt, P("bad/1", pr=[(8, rt)]))
        add("PUBLISH without property length", packet(PUBLISH, 0, mstr("bad/1"))); add("PUBLISH property length beyond", packet(PUBLISH, 0, mstr("bad/1") + b"\x20\1\1")); add("PUBLISH property cut by its length", packet(PUBLISH, 0, mstr("bad/1") + b"\2\2\0\0\0\5xx")); add("PUBLISH property length varint too long", packet(PUBLISH, 0, mstr("bad/1") + b"\x80\x80\x80\x80\1x")); add("PUBLISH user property without value", packet(PUBLISH, 0, mstr("bad/1") + b"\4\x26\0\1k"))
        add("PUBLISH user property reaching beyond the properties", packet(PUBLISH, 0, mstr("bad/1") + b"\x08\x26\0\1k\0\4vpayload"))
        add("SUBSCRIBE sub id 0", subscribe(5, 3, [G], [(11, 0)])); add("SUBSCRIBE two sub ids", subscribe(5, 3, [G], [(11, 1), (11, 2)])); add("SUBSCRIBE sub id too long", packet(SUBSCRIBE, 2, b"\0\3\6\x0b\xff\xff\xff\xff\1" + mstr("a/b") + b"\1"))
        for f in ("$share//a/b", "$share/g/", "$share/g", "$share/", "$share/g+/a/b", "$share/#/a/b", "$share/+/a/b", "$share/g/a#", "$share/g/a/#/b"):
            add("SUBSCRIBE to %s" % f, subscribe(5, 3, [G, (f, 1)]))
        add("SUBSCRIBE no-local on shared", subscribe(5, 3, [("$share/g/a/b", 5)]))
        add("SUBSCRIBE without property length", packet(SUBSCRIBE, 2, b"\0\3")); add("SUBSCRIBE property length beyond", packet(SUBSCRIBE, 2, b"\0\3\x50\x0b\1"))
        add("AUTH without method", packet(AUTH, 0, b"")); add("AUTH 0x18 without method", auth(0x18, [])); add("AUTH with other method", auth(0x19, [(21, "zz")])); add("AUTH flags", packet(AUTH, 1, b"\0\0"))
        add("DISCONNECT two expiries", disconnect(5, 0, [(17, 1), (17, 1)])); add("DISCONNECT property length beyond", packet(DISCONNECT, 0, b"\0\5\x11")); add("DISCONNECT trailing", packet(DISCONNECT, 0, b"\0\0x"))
    return L
def badconnects(v):
    L = []; add = lambda n, d, t=b"": L.append((n, d, t)); C = lambda **k: connect(v, k.pop("cid", "bc"), k.pop("clean", True), 60000, **k)
    W = lambda **k: dict({"topic": "bad/w", "payload": "x"}, **k)
    for s in BADSTR:
        add("client id %r" % s, C(cid=s)); add("user name %r" % s, C(user=s, pw="p")); add("will topic %r" % s, C(will=W(topic=s)))
    for t in ("bad/+", "#", "", "a#"): add("will topic %r" % t, C(will=W(topic=t)))
    for n in ("MQTX", "mqtt", "", "MQTTT", "MQIsdq"): add("protocol name %r" % n, C(proto=n))
    for l in (0, 1, 2, 6, 7, 127, 255): add("protocol level %d" % l, C(level=l))
    if v == 3: add("MQTT with level 3", C(proto="MQTT"))
    else: add("MQIsdp with level %d" % v, C(proto="MQIsdp"))
    for fl in (1, 2, 4, 8, 15): add("CONNECT header flags %x" % fl, bytes([0x10 | fl]) + C()[1:])
    if v > 3: add("reserved connect flag", C(flags_xor=1))
    for x in (8, 16, 24, 32):
        add("will flags %x without will" % x, C(flags_xor=x))
    add("will QoS 3", C(will=W(qos=3)))
    add("user flag without user", C(flags_xor=128)); add("user and password flags without both", C(flags_xor=192)); add("will flag without will", C(flags_xor=4))
    if v == 4: add("password without user name", C(pw="p"))
    if v < 5: add("empty id, persistent", C(cid="", clean=False))
    d = C(user="u", pw="p"); add("trailing bytes", d[:1] + varint(len(d) - 1) + d[2:] + b"x")
    for cut in range(2, len(C(will=W(), user="user", pw="pass"))):
        d = C(will=W(), user="user", pw="pass")
        body = d[2:cut]; add("CONNECT cut at %d" % cut, packet(CONNECT, 0, body))
    for nm, p in (("PUBLISH", publish(v, "bad/1", "x")), ("SUBSCRIBE", subscribe(v, 1, [("a", 0)])), ("PINGREQ", PING), ("PUBREL", ack(v, PUBREL, 1)), ("CONNACK", packet(CONNACK, 0, b"\0\0\0")), ("type 0", b"\0\0"), ("UNSUBSCRIBE", unsubscribe(v, 1, ["a"])), ("AUTH", auth(0x18, [(21, "M")])), ("PUBACK", ack(v, PUBACK, 1))): add(nm + " before CONNECT", p, C())
    if v == 5:
        for p in [(17, 1), (21, "M"), (23, 1), (25, 1), (33, 1), (34, 1), (39, 1000)]: add("CONNECT property %d twice" % p[0], C(pr=[p, p]))
        for p in [(1, 1), (2, 1), (3, "x"), (8, "x"), (9, b"x"), (11, 1), (18, "x"), (19, 1), (24, 1), (26, "x"), (28, "x"), (31, "x"), (35, 1), (36, 1), (37, 1), (40, 1), (41, 1), (42, 1)]: add("CONNECT with property %d" % p[0], C(pr=[p]))
        for p in [(33, 0), (39, 0), (23, 2), (25, 2), (23, 255)]: add("CONNECT property %d = %d" % p, C(pr=[p]))
        add("authentication data without method", C(pr=[(22, b"x")])); add("CONNECT user property", C(pr=[(38, (b"\xff", "v"))]))
        for p in [(11, 1), (17, 1), (21, "M"), (33, 1), (35, 1), (39, 5), (31, "x"), (23, 1)]: add("will with property %d" % p[0], C(will=W(props=[p])))
        for p in [(24, 1), (1, 0), (2, 1), (3, "x"), (8, "x"), (9, b"x")]: add("will property %d twice" % p[0], C(will=W(props=[p, p])))
        add("will payload format 2", C(will=W(props=[(1, 2)]))); add("will response topic wildcard", C(will=W(props=[(8, "a/#")])))
        for s in BADSTR: add("will content type %r" % s, C(will=W(props=[(3, s)])))
    return L

IGNORABLE = re.compile("from the client|^PUB(ACK|REC|REL|COMP) (with|property)|^DISCONNECT (with body|trailing|property length)")    # without effect, tolerated on purpose
def table(ctx, ver, part):
    s = Stand(ctx, ver); V = violations(ver); failed = []
    for i, (n, d) in enumerate(V):
        if i % 2 == part:
            try: s.bad(n, d, ignorable=bool(IGNORABLE.search(n)), noresume=not (d[0] >> 4 in (SUBSCRIBE, UNSUBSCRIBE) or i % 10 == part))
            except Violation as e:
                if not os.environ.get("P16V"): raise
                print(e); failed.append(n); s.got.clear()
    for i, (n, d, t) in enumerate(badconnects(ver)):
        if i % 2 == part:
            try: s.badconnect(n, d, t, ignorable=bool(t) or n in ("trailing bytes", "will topic ''"))
            except Violation as e:
                if not os.environ.get("P16V"): raise
                print(e); failed.append(n); s.got.clear()
    c = Client(s.w, s.b, "late", 5); c.connect(); c.sub("#"); s.w.barrier([c])
    if c.pubs: raise Violation("MQTT %d: retained messages left by refused packets: %s" % (ver, c.pubs[:3]))
    ctx.count("violations_refused", len(V))
    if failed: raise Violation("%d failures" % len(failed))

OKSTR = ["a", "é/日本/𝄞", " ", "/", "//a", "a/$b", "\u00a0x", "\ufeffbom", "\U0010fffd", "x" * 15 + "é", "y" * 16 + "é" * 9, "~" * 31, "\ud7ff\ue000", "a" * 65535, "é" * 32767, "\ufffd", "/" * 200]
def valids(v):
    P = lambda t, pl=b"x", q=0, r=False, pid=9, dup=False, pr=None: publish(v, t, pl, q, r, pid, dup, pr)
    L = []; add = lambda n, d: L.append((n, d))
    for i, t in enumerate(OKSTR):
        for q in (0, 1, 2): add("PUBLISH to a topic of %d characters" % len(t), P(t, b"pay", q, i % 2, 1 + i * 300))
        add("SUBSCRIBE to the filter", subscribe(v, 7, [(t, 1)]))
        add("UNSUBSCRIBE", unsubscribe(v, 7, [t]))
    for n in (0, 1, 120, 121, 122, 123, 124, 125, 126, 127, 128, 16370, 16380, 16381, 16384, 65535, 65536, 2097140, 2097152):
        for q in (0, 1): add("PUBLISH with %d bytes" % n, P("size", bytes([n & 255]) * n, q))
    for pid in (1, 255, 256, 65535):
        for q in (1, 2):
            for dup in (0, 1): add("PUBLISH with packet id %d dup %d" % (pid, dup), P("id", "x", q, False, pid, dup))
        add("SUBSCRIBE with packet id", subscribe(v, pid, [("z", 2)])); add("UNSUBSCRIBE with packet id", unsubscribe(v, pid, ["z"]))
        for t in (PUBACK, PUBREC, PUBREL, PUBCOMP): add("unexpected %s" % NAMES[t], ack(v, t, pid))
    add("PUBLISH binary", P("bin", bytes(range(256)), 1, True))
    for f in ["#", "/#", "+", "+/+", "/+", "a/+/b/#", "+/#", "a//b", "//", "a/ /+"]: add("SUBSCRIBE to %s" % f, subscribe(v, 7, [(f, 2)])); add("UNSUBSCRIBE", unsubscribe(v, 7, [f]))
    add("SUBSCRIBE with 2000 filters", subscribe(v, 7, [("m/%d" % i, i % 3) for i in range(2000)])); add("UNSUBSCRIBE with 2000 filters", unsubscribe(v, 7, ["m/%d" % i for i in range(2000)])); add("the same filter thrice", subscribe(v, 8, [("tw", 0), ("tw", 1), ("tw", 2)]))
    add("PINGREQ", PING)
    if v == 5:
        for o in range(64):
            if o & 3 != 3 and o >> 4 != 3: add("SUBSCRIBE with options %x" % o, subscribe(5, 3, [("opt/%d" % o if not o & 4 else "opt", o)]))
        for n in (1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455): add("sub id %d" % n, subscribe(5, 3, [("si", 1)], [(11, n)]))
        for f in ("$share/g/a/b", "$share/g/#", "$share/gx/+/a", "$share/é b/a"): add("SUBSCRIBE to %s" % f, subscribe(5, 3, [(f, 1)])); add("UNSUBSCRIBE", unsubscribe(5, 3, [f]))
        for k in ("", "k", "é" * 100, "k" * 65535): add("user property", P("up", "x", 1, pr=[(38, (k, k)), (38, (k, k)), (38, (k, ""))])); add("SUBSCRIBE with user property", subscribe(5, 3, [("up2", 0)], [(38, (k, k))] * 3)); add("UNSUBSCRIBE with user property", unsubscribe(5, 3, ["up2"], [(38, (k, k))] * 3))
        for p in [(1, 0), (1, 1), (2, 1), (2, 0xffffffff), (2, 86400), (3, ""), (3, "t" * 65535), (8, "r"), (8, "r/é" * 10), (9, b""), (9, bytes(range(256)) * 255), (35, 1), (35, 10), (35, 7)]: add("PUBLISH with property %d" % p[0], P("pr", "é".encode(), 1, False, pr=[p]))
        add("PUBLISH with all properties", P("pr", "x", 2, True, pr=[(1, 1), (2, 50), (3, "c"), (8, "r"), (9, b"d"), (35, 2), (38, ("a", "b"))])); add("all properties, other order", P("pr", "x", 1, pr=[(38, ("a", "b")), (35, 2), (9, b"d"), (8, "r"), (38, ("a", "b")), (3, "c"), (2, 50), (1, 0)]))
        add("by alias", P("", "x", 1, pr=[(35, 7)])); add("alias redefined", P("al/y", "x", 1, pr=[(35, 7)]))
        for t in (PUBACK, PUBREC, PUBREL, PUBCOMP):
            for rc in ((0, 0x92) if t in (PUBREL, PUBCOMP) else (0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99)):
                fl = 2 if t == PUBREL else 0
                add("%s rc %x" % (NAMES[t], rc), packet(t, fl, b"\0\5" + bytes([rc]))); add("%s rc %x, no properties" % (NAMES[t], rc), packet(t, fl, b"\0\5" + bytes([rc, 0]))); add("%s rc %x, properties" % (NAMES[t], rc), packet(t, fl, b"\0\5" + bytes([rc]) + props([(31, "why"), (38, ("k", "v")), (38, ("k", "v"))])))
        for rc in (0, 4, 0x80, 0x81, 0x82, 0x83, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99):
            add("DISCONNECT rc %x" % rc, packet(DISCONNECT, 0, bytes([rc]))); add("DISCONNECT rc %x with properties" % rc, packet(DISCONNECT, 0, bytes([rc]) + props([(17, 5), (31, "bye"), (38, ("k", "v"))]))); add("DISCONNECT rc %x, no properties" % rc, packet(DISCONNECT, 0, bytes([rc, 0])))
    add("DISCONNECT", disconnect(v))
    return L
def goodconnects(v):
    C = lambda **k: connect(v, k.pop("cid", "gc%d" % len(L)), k.pop("clean", True), k.pop("keepalive", 60000), **k); L = []; add = lambda n, d, e=None: L.append((n, d, e))
    W = lambda **k: dict({"topic": "gw/" + str(len(L)), "payload": "x"}, **k)
    for cid in ["c", "23characters-long-id-xxx", "c" * 1000, "ünï", "a b", "a.b-c_d:e@f"] + ([""] if v > 3 else []): add("client id %r" % cid[:20], C(cid=cid))
    for k in (0, 1, 10, 65535): add("keep-alive %d" % k, C(keepalive=k))
    for q in (0, 1, 2):
        for ret in (0, 1): w = W(qos=q, retain=ret); add("will qos %d retain %d" % (q, ret), C(will=w), w)
    for pay in (b"", bytes(range(256)), b"z" * 65535): w = W(payload=pay); add("will of %d bytes" % len(pay), C(will=w), w)
    for t in OKSTR: w = W(topic=t); add("will topic of %d characters" % len(t), C(will=w), w)
    for u, pw in (("u", None), ("u", ""), ("u", "p"), ("ü" * 1000, b"\0\xff" * 1000), ("u", b"p" * 65535)): add("user %r" % u[:9], C(user=u, pw=pw))
    if v == 5:
        add("password only", C(pw="p"))
        for p in [(17, 0), (17, 1), (17, 0xffffffff), (33, 1), (33, 65535), (39, 100), (39, 0xffffffff), (34, 0), (34, 65535), (25, 0), (25, 1), (23, 0), (23, 1), (38, ("", ""))]: add("property %d = %s" % p, C(pr=[p]))
        add("all properties", C(pr=[(38, ("b", "c")), (23, 0), (25, 1), (34, 9), (39, 5000), (33, 7), (17, 9), (38, ("b", "c"))]))
        for p in [(24, 0), (1, 0), (1, 1), (2, 50), (3, "x"), (8, "re"), (9, b"\0\1"), (38, ("k", "v"))]: w = W(props=[p]); add("will property %d" % p[0], C(will=w), w)
        w = W(qos=2, props=[(24, 0), (1, 1), (2, 50), (3, "x"), (8, "re"), (9, b"\0\1"), (38, ("k", "v"))]); add("all will properties", C(will=w, user="u", pw="p", pr=[(17, 5), (33, 9)]), w)
    return L

def valid(ctx, ver):
    s = Stand(ctx, ver); c = None
    for n, d in valids(ver):
        if c is None or not c.open: c = s.attacker()
        one = d[0] >> 4 in (SUBSCRIBE, DISCONNECT) and ctx.rng.random() < 0.3 or b"\xff" * 30 in d
        s.good(n, d, None if one else c)
        if d[0] >> 4 == SUBSCRIBE and not one and ctx.rng.random() < 0.5: c.disconnect(); c = None
    for n, d, w in goodconnects(ver):
        k = s.goodconnect(n, d); s.seen(); k.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); k.send_raw(b"\0\0" if w else disconnect(ver))    # a violation, so the will is due
        s.w.until(lambda: not k.open, 10, "close"); 
        if w:
            s.w.until(lambda: s.got, 10, "the will of a connection with: " + n); g = s.got[0]
            pay = w["payload"] if isinstance(w["payload"], bytes) else w["payload"].encode()
            if g.topic != w["topic"] or bytes(g.payload) != pay: raise Violation("will delivered as %r" % g)
            s.seen()
            if w.get("retain"): s.p.pub(w["topic"], b"", 1, True); s.seen()
    ctx.count("valid_accepted", ctx.evals)

# ---------------------------------------------------------------- mutated packets against the reference decoder
GSTR = ["a", "a/b", "c/d/e", "é/x", "x" * 20 + "日本", "", "/", "+", "a/+/b", "#", "a/#", "$share/g/a", "$share/g/+/x", "a\0é"]
def gprops(r, t, ver):
    if ver < 5: return None
    out = []
    for pid in r.sample([p for p in CPROPS if t in CPROPS[p]], min(r.choice([0, 0, 1, 2, 3]), len([p for p in CPROPS if t in CPROPS[p]]))):
        ty = PROPS[pid][1]; out.append((pid, r.choice([0, 1]) if ty == B else r.choice([1, 5, 7, 10, 11]) if ty == H else r.choice([1, 100, 0xffffffff]) if ty == I else r.choice([1, 128, 268435455]) if ty == V else r.choice(["r", "é", "text"]) if ty in (S, D) else ("k", "v")))
    if r.random() < 0.05: out.append((r.choice(list(PROPS)), 1)) if PROPS[r.choice(list(PROPS))][1] in (B, H, I, V) and False else None
    return out
def gen(r, ver):
    k = r.random(); pid = r.choice([1, 2, 500, 65535, 0 if r.random() < 0.1 else 3])
    if k < 0.45: return publish(ver, r.choice(GSTR[:5] if r.random() < 0.85 else GSTR), bytes(r.randrange(256) for _ in range(r.choice([0, 3, 30]))), r.choice([0, 1, 2]), r.random() < 0.3, pid, False, gprops(r, PUBLISH, ver))
    if k < 0.75: return subscribe(ver, pid, [(r.choice(GSTR), r.choice([0, 1, 2]) | (r.choice([0, 4, 8, 0x10, 0x20, 0x2c]) if ver == 5 else 0)) for _ in range(r.choice([1, 1, 2, 3]))], gprops(r, SUBSCRIBE, ver))
    if k < 0.85: return unsubscribe(ver, pid, [r.choice(GSTR) for _ in range(r.choice([1, 2]))], gprops(r, UNSUBSCRIBE, ver))
    if k < 0.95: return ack(ver, r.choice([PUBACK, PUBREC, PUBREL, PUBCOMP]), pid, 0, None)
    return disconnect(ver, r.choice([0, 4]), gprops(r, DISCONNECT, ver)) if ver == 5 else disconnect(ver)
def mut(r, d):
    b0, body = split(d); b = bytearray(body)
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        k = r.randrange(7); n = len(b); p = r.randrange(n) if n else 0
        if k == 0: b0 ^= 1 << r.randrange(4)
        elif not n: continue
        elif k == 1: b[p] ^= 1 << r.randrange(8)
        elif k == 2: b[p] = r.choice([0, 1, 2, 3, 0x26, 0x7f, 0x80, 0xff, ord("+"), ord("#"), ord("/")])
        elif k == 3: b[p:p] = bytes([r.choice([0, 1, 0x26, 0xc3, 0xa9, 47, r.randrange(256)])])
        elif k == 4: del b[p]
        elif k == 5: b = b[:p]
        elif k == 6: q = r.randrange(n); b[p], b[q] = b[q], b[p]
    return bytes([b0]) + varint(len(b)) + bytes(b)
def differential(ctx, ver, k, n):
    r = ctx.rng; s = Stand(ctx, ver); c = None
    for i in range(n):
        d = mut(r, gen(r, ver))
        if c is None or not c.open or r.random() < 0.02:
            if c is not None and c.open: c.disconnect()
            c = s.attacker()
        try: o = cdecode(ver, *split(d), c.st); verdict = "valid"
        except Bad as e: verdict = "bad"; why = str(e)
        except Grey as e: verdict = "grey"
        ctx.count("packets_" + verdict)
        if verdict == "valid":
            fs = [f for f, _ in o.get("subs", [])] 
            s.good("generated", d, c, o)
            if o["type"] in (SUBSCRIBE, UNSUBSCRIBE, DISCONNECT): c.disconnect(); c = None; s.seen()
        elif verdict == "bad": s.bad("generated: " + why, d, c, noresume=not (d[0] >> 4 == SUBSCRIBE and r.random() < 0.3)); c = None
        else:
            c.ack = True; ctx.step(ver, "grey", d.hex()); c.ping_sent += 2; pongs = c.pongs; c.send(d + PING); s.w.until(lambda: c.pongs > pongs or not c.open, 10, "any reaction"); 
            if c.open: c.disconnect()
            g = s.seen()
            if d[0] >> 4 != PUBLISH and any(not x.topic.startswith("will/") for x in g): raise Violation("packet %s had effect %s" % (d.hex(), g[:2]))
            c = None
            if d[0] >> 4 == PUBLISH and d[0] & 1: 
                for x in g: s.p.pub(x.topic, b"", 1, True)
                s.seen()
            ctx.eval((ver, d))
        if i % 100 == 99: s.seen()

def limits(ctx):
    """Announced limits: max_packet_size, max_string_length, alias maximum, receive maximum, max_qos, session expiry rules."""
    for ver in (3, 4, 5):
        s = Stand(ctx, ver, max_packet_size=5000, max_string_length=300)
        base = len(publish(ver, "sz", b"", 1, False, 9)) + 1
        s.good("packet of exactly the maximum size", publish(ver, "sz", b"z" * (5000 - base), 1, False, 9))
        for n in (5001 - base, 6000, 100000): s.bad("packet beyond the maximum size", publish(ver, "sz", b"z" * n, 1, False, 9))
        s.good("topic of exactly the maximum length", publish(ver, "t" * 300, b"x", 1, True, 9))
        s.bad("topic beyond the maximum length", publish(ver, "t" * 301, b"x", 1, True, 9)); s.good("filter of maximum length", subscribe(ver, 5, [("f" * 300, 1)])); s.bad("filter beyond the maximum length", subscribe(ver, 5, [("a/b", 1), ("f" * 301, 1)]))
        s.badconnect("client id beyond the maximum length", connect(ver, "i" * 301)); s.badconnect("will topic beyond the maximum length", connect(ver, "i", will={"topic": "w" * 301, "payload": "x"})); s.badconnect("user name beyond the maximum length", connect(ver, "i", user="u" * 301, pw="p"))
        k = s.goodconnect("client id of maximum length", connect(ver, "i" * 300)); k.disconnect()
        if ver == 5:
            s.bad("content type beyond the maximum length", publish(5, "t", b"x", 1, True, 9, pr=[(3, "c" * 301)])); s.bad("user property beyond the maximum length", publish(5, "t", b"x", 1, True, 9, pr=[(38, ("k", "c" * 301))]))
            c = s.attacker(expiry=0)
            c.send(disconnect(5, 0, [(17, 5)])); s.w.until(lambda: not c.open, 10, "close"); ctx.eval("expiry raised at DISCONNECT")
            k = Client(s.w, s.b, c.cid, 5); k.connect(clean=False)
            if k.connack.sp: raise Violation("session without expiry was kept because of an expiry in DISCONNECT, which is a protocol error")
        s.o.disconnect(); s.p.disconnect(); s.b.stop()
