from common import *
import p14, json, os, re, signal, socket, subprocess, threading, time, glob
from lib import certs
from lib import build
REPO = build.REPO
RULE = ("Configuration texts: every key of the parser (read from its source) with boundary and malformed values in its block, random edits of texts (braces, quotes, lengths, bytes, includes), judged three ways: --test-config, reload of a running broker, start. All three must agree; a refused one must leave everything the monitor can observe as it was (CONNACK properties, logins, ACL, wildcard and retained policies, listeners, certificates), no crash; "
        "random sequences of valid and refused reloads, in bursts, with traffic: the observation must equal the model of the last accepted text, existing connections must never end and no message of theirs be lost or repeated. Evaluation = one text judged or one observation compared; distinct by key, value, verdict / setting.")
BUDGET = {"quick": 480}
JOBS = 7
ASSUMPTIONS = ["Contents of files a configuration refers to (other than certificates), occupied ports and the like may make a start fail although --test-config accepts the text.", "Connections that are still in the accept queue at a reload may be reset: listeners are documented to be recreated.", "The paths of the password and ACL files are fixed at the start (stated in plugin.h).", "Settings documented to apply to new clients only are observed on new clients."]

def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    return [("keys-%d" % i, "keys_", {"k": i, "part": i % 14}) for i in range(14 * n)] + [("texts-%d" % i, "texts", {"k": i}) for i in range(7 * n)] + [("observe-%d" % i, "observe", {"k": i}) for i in range(14 * n)]

def keys():
    """Keys as the parser registers them, per block."""
    s = open(REPO + "/configfileparser.cpp").read(); out = {}
    for m in re.finditer(r'(valid\w*Keys)\.insert\("(\w+)"\)', s): out.setdefault(m.group(1), []).append(m.group(2))
    if len(out) < 3: return {"validKeys": ["max_qos", "max_packet_size", "allow_anonymous", "expire_sessions_after_seconds"], "validListenKeys": ["port", "haproxy", "max_qos"], "validBridgeKeys": ["keepalive", "tls", "address"]}
    return out

GEN = ["", "0", "1", "2", "3", "-1", "5", "60", "128", "300", "4096", "65535", "65536", "100000", "2147483647", "2147483648", "4294967295", "4294967296", "99999999999999999999999", "1.5", "0x10", "1e3", "5abc", " 7", "true", "false", "on", "off", "yes", "True", "abc", "é", "\"a b\"", "'x'", "\"unterminated", "a b c", "all", "none", "mqtt", "mqtt5", "tls1.2", "ip4", "drop", "a/#", "a/# 1", "a/# 3", "#", "127.0.0.1", "10.0.0.0/8", "::1/128", "300.1.1.1", "1.2.3.4/99"]
PATHS = ["/nonexistent/x", "{dir}", "{dir}/somefile", "{dir}/empty", "{dir}/srv.crt", "{dir}/srv.key", "{dir}/nonexist", "", "\"{dir}/somefile\""]
PATHKEYS = {"plugin", "log_file", "storage_dir", "mosquitto_password_file", "mosquitto_acl_file", "include_dir", "fullchain", "privkey", "unix_socket_path", "client_verification_ca_file", "client_verification_ca_dir", "ca_file", "ca_dir"}
SKIP = {"rlimit_nofile", "unix_socket_user", "unix_socket_group", "local_username", "address", "log_file", "log_level", "quiet"}     # effects outside the scratch directory
def values(key):
    if key in SKIP: return []
    if key in PATHKEYS: return PATHS
    return GEN

class Judge:
    """A running broker and everybody's opinion about a text."""
    def __init__(self, ctx, **kw):
        self.ctx = ctx; r = ctx.rng; self.b = ctx.broker(threads=2, start=False, listeners=[{"name": "tcp"}], conf=dict(BIGQ), **kw); b = self.b
        certs.ca(b.dir); certs.cert(b.dir, "srv", "localhost"); b.write("somefile", "user x\ntopic readwrite #\n"); b.write("empty", ""); os.makedirs(b.path("inc"), exist_ok=True); b.write("inc/a.conf", "max_qos 2\n")
        b.start(); self.base = b.conf_text(); self.w = ctx.world(b); self.errors = 0; self.loads = 0
        self.canary = [Client(self.w, b, "canary%d" % i, v) for i, v in enumerate((4, 5))]; self.u = Uniq(); self.n = 0
        for c in self.canary: c.connect(clean=False, pr=[("session_expiry", 100000)] if c.ver == 5 else None); c.sub(("can/#", 2))
        self.ref = self.observe()
    def observe(self):
        """What new clients see."""
        out = []
        def go():
            del out[:]; c = Client(self.w, self.b, "look", 5, name="look"); c.connect(pr=[("session_expiry", 4000000)]); p = c.connack.props; p = dict(p.items() if isinstance(p, dict) else p)
            out.append(sorted((str(k), str(v)) for k, v in p.items() if k not in ("server_keepalive",))); c.sub("look/#"); c.pub("look/a", b"x", 1); self.w.barrier([c]); self.w.until(lambda: c.pubs, 20, "a message to oneself"); out.append([(q.topic, bytes(q.payload)) for q in c.pubs]); c.disconnect()
            a = Client(self.w, self.b, "a+b", 4); a.connect(expect=None, wait=False); self.w.until(lambda: a.connack or not a.open, 20, "an answer"); out.append(a.connack.rc if a.connack else None); a.drop()
        retry_connect(go); return list(out)
    def traffic(self):
        a, c = self.canary; self.n += 1; p = self.u(); a.pub("can/x", p, 2); c.pub("can/y", p, 1)
        self.w.until(lambda: all(len(x.pubs) >= 2 for x in self.canary), 20, "the canaries' messages")
        for x in self.canary:
            if sorted((q.topic, bytes(q.payload)) for q in x.pubs) != [("can/x", bytes(p)), ("can/y", bytes(p))]: raise Violation("canary got %s" % [(q.topic, bytes(q.payload)[:20]) for q in x.pubs])
            x.pubs.clear()
    def alive(self, what):
        if not self.b.alive(): raise Violation("the broker died at %s:\n%s" % (what, self.b.tail()))
        for x in self.canary:
            if not x.open: raise Violation("%s: a connected client was disconnected" % what)
    def probe(self, what):
        """Returns when the main loop is done with what it was asked: two connections after each other are accepted and closed for garbage."""
        for i in range(2):
            for _ in range(200):
                s = socket.socket(); s.settimeout(20)
                try:
                    s.connect(("127.0.0.1", self.b.port)); s.sendall(b"\0\0"); s.recv(10); break
                except ConnectionRefusedError: time.sleep(0.01); self.alive(what)
                except (ConnectionError, BrokenPipeError): break
                except socket.timeout: raise Violation("%s: the broker doesn't react" % what)
                finally: s.close()
            else: raise Violation("%s: the broker doesn't listen anymore" % what)
    def test(self, text):
        self.b.write("test.conf", text)
        p = subprocess.run([self.b.exe, "--test-config", "-c", self.b.path("test.conf")], cwd=self.b.dir, env=self.b.environ(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, stdin=subprocess.DEVNULL)
        if p.returncode not in (0, 1): raise Violation("--test-config ended with %s: %s" % (p.returncode, p.stdout[-300:]))
        return p.returncode == 0, p.stdout.decode(errors="replace")
    def reload(self, text, what, okd, n=1):
        self.b.write("flashmq.conf", text); e0 = self.b.log().count("Error reloading config"); l0 = self.b.log().count("Loading config. Reload: true")
        for _ in range(n): self.b.hup()
        end = time.monotonic() + 30
        while self.b.log().count("Loading config. Reload: true") <= l0:
            self.alive(what); time.sleep(0.001)
            if time.monotonic() > end: raise Violation("%s: SIGHUP has no effect" % what)
        self.probe(what); end = time.monotonic() + (10 if not okd else 0)
        while self.b.log().count("Error reloading config") <= e0 and time.monotonic() < end: time.sleep(0.002)
        return self.b.log().count("Error reloading config") == e0
    def starts(self, text, what):
        """Does a broker start with it?"""
        import shutil
        d = self.b.dir + "/second"; os.makedirs(d, exist_ok=True); port = int(self.b.port); s = socket.socket(); s.bind(("127.0.0.1", 0)); p2 = s.getsockname()[1]; s.close()
        t = text.replace("port %d" % port, "port %d" % p2).replace("log_file " + self.b.dir + "/log\n", "log_file " + d + "/log\n"); self.b.write("second/c.conf", t)
        p = subprocess.Popen([self.b.exe, "-c", d + "/c.conf"], cwd=self.b.dir, env=dict(self.b.environ(), FMQV_SHM="", FMQV_OPLOG="", HOME=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        try:
            end = time.monotonic() + 30
            while time.monotonic() < end:
                if p.poll() is not None:
                    out = p.stdout.read().decode(errors="replace")
                    if p.returncode not in (99, 1): raise Violation("%s: start ended with %s: %s" % (what, p.returncode, out[-600:]))
                    return False, out
                x = socket.socket(); x.settimeout(2)
                try: x.connect(("127.0.0.1", p2)); return True, ""
                except OSError: time.sleep(0.02)
                finally: x.close()
            raise Violation("%s: start neither fails nor listens" % what)
        finally:
            if p.poll() is None: p.terminate()
            try: p.wait(20)
            except subprocess.TimeoutExpired: p.kill(); p.wait()
            p.stdout.close(); shutil.rmtree(d, ignore_errors=True)
    def back(self, what):
        if not self.reload(self.base, what + ", back", True): raise Violation("%s: the base configuration is refused afterwards: %s" % (what, self.b.tail(5)))
    def judge(self, text, what, check=0.3, start=0.1):
        r = self.ctx.rng; self.ctx.step(what[:200]); text = text.replace("{dir}", self.b.dir); okd, out = self.test(text); took = self.reload(text, what, okd)
        self.alive(what); self.ctx.count("accepted" if okd else "refused")
        if okd != took: raise Violation("%s: --test-config says %s (%s), reload %s: %s" % (what, "OK" if okd else "no", out[-150:].strip(), "accepts it" if took else "refuses it", self.errline()))
        if not okd and r.random() < check:
            self.traffic(); o = self.observe(); self.ctx.count("observed_after_refusal")
            if o != self.ref: raise Violation("%s: refused, but clients see %s instead of %s" % (what, o, self.ref))
        if r.random() < start and "thread_count" not in text:
            st, out2 = self.starts(text, what); self.ctx.count("starts_tried")
            if st != okd and not (okd and re.search("listener on|Some listeners|plugin|Plugin|state|storage", out2)): raise Violation("%s: --test-config says %s, a start %s: %s" % (what, "OK" if okd else "no", "works" if st else "fails", out2[-300:]))
        if okd:
            self.back(what); self.alive(what)
            if r.random() < check:
                self.traffic(); o = self.observe(); self.ctx.count("observed_after_return")
                if o != self.ref: raise Violation("after %s and back: clients see %s instead of %s" % (what, o, self.ref))
        return okd
    def errline(self): return [l for l in self.b.log().split("\n") if "Error reloading config" in l][-1:]
    def end(self): self.traffic(); self.b.stop()

BRIDGE = "bridge {\n  clientid_prefix brx\n  address 127.0.0.1\n  port 9\n  publish a/# 1\n  inet_protocol ip4\n%s}\n"
def wrap(J, block, line, r):
    key = line.split(" ")[0]; base = "".join(l + "\n" for l in J.base.split("\n") if l and not (block == "validKeys" and l.split(" ")[0] == key))
    if "listen" in block.lower(): return base + "listen {\n" + "".join(x + "\n" for x in ["  protocol mqtt", "  inet_protocol ip4", "  inet4_bind_address 127.0.0.1", "  port %d" % J.spare] if x.split()[0] != key) + "  " + line + "\n}\n"
    if "bridge" in block.lower(): return base + "".join(l + "\n" for l in (BRIDGE % ("  " + line + "\n")).rstrip("\n").split("\n") if l == "  " + line or l.split()[0] != key)
    return line + "\n" + base

def spare():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p

def keys_(ctx, k, part):
    r = ctx.rng; J = Judge(ctx); J.spare = spare(); work = [(b, key, v) for b, ks in sorted(keys().items()) for key in ks for v in values(key)]; work = [x for x in work if not (x[1] == "port" and x[2].strip().isdigit() and 0 < int(x[2]) < 65536)]
    r2 = __import__("random").Random(k // 14 * 77 + int(os.environ.get("VERIF_SEED", "1"))); r2.shuffle(work); mine = work[part::14]; mine = mine
    for b, key, v in mine:
        okd = J.judge(wrap(J, b, "%s %s" % (key, v), r), "%s: %s %s" % (b, key, v)); ctx.eval((b, key, v, okd)); ctx.count("keys_in_" + b)
    J.end()

def mutate(J, r):
    """A random edit of a valid text."""
    ex = ["max_qos 1", "max_incoming_topic_alias_value 10", "wills_enabled false", "quiet false", "log_level info", "expire_sessions_after_seconds 1000"]
    t = (J.base + "".join(r.choice(ex) + "\n" for _ in range(r.randint(0, 2))) + (BRIDGE % "" if r.random() < 0.3 else "")).split("\n"); n = r.randint(1, 3); what = []
    for _ in range(n):
        i = r.randrange(len(t)); m = r.choice(["del", "dup", "swap", "brace", "open", "byte", "long", "space", "comment", "include", "incself", "incmissing", "trunc", "nested", "unknown", "quote", "crlf", "nul", "empty", "listenport"]); what.append(m)
        if m == "del": t.pop(i)
        elif m == "dup": t.insert(i, t[i])
        elif m == "swap": j = r.randrange(len(t)); t[i], t[j] = t[j], t[i]
        elif m == "brace": t.insert(i, "}")
        elif m == "open": t.insert(i, r.choice(["{", "listen {", "bridge {", "foo {", "listen", "listen { }", "listen {}"]))
        elif m == "byte" and t[i]: x = r.randrange(len(t[i])); t[i] = t[i][:x] + chr(r.choice([1, 9, 34, 39, 92, 123, 125, 255, 233])) + t[i][x + 1:]
        elif m == "long": t.insert(i, r.choice(["# " + "c" * 300, "max_qos " + "1" * 300, "x" * 100000, "max_qos " + " " * 400 + "1"]))
        elif m == "space": t[i] = r.choice(["  ", "\t"]) + t[i] + r.choice(["  ", "\t"])
        elif m == "comment": t.insert(i, r.choice(["# x {", "max_qos 1 # c", "#", "# }", "#include_dir {dir}/inc"]))
        elif m == "include": t.insert(i, "include_dir {dir}/inc")
        elif m == "incself": os.makedirs(J.b.path("self"), exist_ok=True); J.b.write("self/a.conf", "include_dir %s\n" % J.b.path("self")); t.insert(i, "include_dir {dir}/self")
        elif m == "incmissing": t.insert(i, "include_dir {dir}/nope")
        elif m == "trunc": t[:] = t[:i]
        elif m == "nested": t.insert(i, "listen {\n  listen {\n  port 1\n }\n}")
        elif m == "unknown": t.insert(i, r.choice(["foo bar", "max_qos_ 1", "MAX_QOS 1", "=", "max_qos=1", "clientid_prefix x", "\"max_qos\" 1"]))
        elif m == "quote": t.insert(i, r.choice(["max_qos \"1\"", "max_qos '1'", "max_qos \"1", "max_qos \\\"1", "max_qos \"\"", "max_qos \"1\" \"2\""]))
        elif m == "crlf": t[:] = [x + "\r" for x in t]
        elif m == "nul": t.insert(i, "max_qos 1\0")
        elif m == "empty": t[:] = [""] if r.random() < 0.1 else t
        elif m == "listenport": t.insert(i, "listen {\n  protocol %s\n  inet_protocol ip4\n  inet4_bind_address 127.0.0.1\n  port %d\n}" % (r.choice(["mqtt", "websockets", "acme", "foo"]), J.spare))
        if not t: t = [""]
    return "\n".join(t) + r.choice(["\n", ""]), "+".join(what)

def block(t):
    """The lines that matter of the text, from its first listener on when that's not in another block."""
    x = "|".join(" ".join(l.split()) for l in t.split("\n") if l.split()); m = re.search(r"(?:^|\|)listen \{\|[^}]*\}", x); return m.group(0).lstrip("|") if m else ""

def texts(ctx, k):
    r = ctx.rng; J = Judge(ctx); J.spare = spare(); port = "port %d" % J.b.port
    for i in range(250 if ctx.tier == "quick" else 600):
        t, what = mutate(J, r)
        okd0, _ = J.test(t.replace("{dir}", J.b.dir))
        if okd0 and (not re.search(r"(?m)^\s*port %d\s*$" % J.b.port, t) or not re.search(r"(?m)^\s*log_file %s/log\s*$" % re.escape(J.b.dir), t) or not block(J.base) in block(t) or re.search("acme|websockets", t) or not re.search(r"(?m)^\s*protocol mqtt\s*$", t) or re.search(r"(?m)^\s*(quiet true|#)", t) and False): ctx.count("not_reloaded"); continue      # would cut the monitor off
        okd = J.judge(t, "text %d (%s)" % (i, what)); ctx.eval((what, okd))
    J.end()

def observe(ctx, k):
    """The observation equals the model of the last accepted configuration, with traffic on connections that stay."""
    r = ctx.rng; b = ctx.broker(threads=r.choice([1, 2, 4]), noise=r.choice([0, 200]), start=False, listeners=[{"name": "tcp"}], conf=dict(BIGQ, mosquitto_acl_file="{dir}/acl0", mosquitto_password_file="{dir}/pw0")); certs.ca(b.dir)
    for n in ("A", "B"): certs.cert(b.dir, n, "cert" + n)
    entry = lambda pw: p14.h6(pw.encode(), b"salt")
    for i in (0, 1): b.write("acl%d" % i, "topic readwrite #\ntopic deny forbidden%d/#\nuser u%d\ntopic readwrite #\n" % (i, i)); b.write("pw%d" % i, "u%d:%s\nu%d:%s\n" % (i, entry("pw"), 1 - i, entry("other")))
    b.start(); w = ctx.world(b); u = Uniq("o%d-" % k); base = dict(b.conf); ports = [spare(), spare()]
    M = dict(max_incoming_topic_alias_value=65535 if False else None); model = {}; extra = []
    CH = {"allow_anonymous": ["true", "true", "false"], "max_incoming_topic_alias_value": [0, 7, 65535], "max_qos": [0, 1, 2, 2], "subscription_identifiers_enabled": ["true", "false"], "retained_messages_mode": ["enabled", "drop", "disconnect_with_error", "downgrade"], "max_packet_size": [20000, 1000000], "expire_sessions_after_seconds": [60, 1000], "wills_enabled": ["true", "false"], "minimum_wildcard_subscription_depth": [0, 2], "wildcard_subscription_deny_mode": ["deny_all"], "allow_unsafe_clientid_chars": ["true", "false"], "max_qos_msg_pending_per_client": [100, 40000]}
    BAD = ["max_qos 3", "foo bar", "listen {", "}", "max_packet_size abc", "max_packet_size 99999999999999", "mosquitto_acl_file {dir}/none", "wills_enabled maybe", "listen {\n protocol mqtt\n port %d\n fullchain {dir}/A.crt\n privkey {dir}/B.key\n}" % ports[0], "listen {\n protocol mqtt\n port %d\n fullchain {dir}/acl0\n privkey {dir}/acl0\n}" % ports[0], "listen {\n protocol mqtt\n port %d\n fullchain {dir}/A.crt\n privkey {dir}/A.key\n client_verification_ca_file {dir}/acl0\n}" % ports[0], "bridge {\n address 127.0.0.1\n}", "include_dir {dir}/none", "expire_sessions_after_seconds 5", "retained_messages_mode foo", "bridge {\n clientid_prefix x\n address localhost\n publish #\n tls on\n fullchain {dir}/A.crt\n}", "x" * 300]
    can = [Client(w, b, "can%d" % i, v) for i, v in enumerate((4, 5, 5))]
    for c in can: c.connect(clean=False, pr=[("session_expiry", 60000), ("receive_max", 65535)] if c.ver == 5 else None); c.sub(("can/#", 2))
    sent = []
    def traffic(n):
        for _ in range(n):
            c = r.choice(can); p = u(b"t" * r.choice([0, 200])); c.pub("can/%d" % r.randint(0, 3), p, r.choice([1, 2]), wait=False); sent.append(bytes(p))
    def connect_(cid="new", user=None, pw=None, ver=5, port=None, tls=None, pr=None):
        c = Client(w, b, cid, ver, name=cid, **({"port": port} if port else {}), **({"tls": tls} if tls else {})); c.connect(user=user, pw=pw, expect=None, wait=False, pr=pr); w.until(lambda: c.connack or not c.open, 20, "answer to CONNECT"); return c, (c.connack.rc if c.connack else None)
    def look():
        """Everything that can be seen of the settings."""
        o = {}
        c, rc = connect_(); o["allow_anonymous"] = "true" if rc == 0 else "false"; c.drop()
        for i in (0, 1): c, rc = connect_("n%d" % i, "u%d" % i, "pw"); o["login%d" % i] = rc == 0; c.drop()
        i = 0 if o["login0"] else 1; c, rc = connect_("full", "u%d" % i, "pw", pr=[("session_expiry", 4000000)])
        if rc != 0: raise Violation("nobody can log in")
        p = c.connack.props; p = dict(p.items() if isinstance(p, dict) else p); o["alias"] = p.get("topic_alias_max", 0); o["max_qos"] = p.get("max_qos", 2); o["subid"] = p.get("subid_available", 1) ; o["retain"] = p.get("retain_available", 1); o["packet"] = p.get("max_packet"); o["expiry"] = p.get("session_expiry", 4000000); o["recv"] = p.get("receive_max", 65535)
        codes = []
        for f in ("#", "a/#", "a/b/#"):
            pid = c.pid(); c.send(subscribe(5, pid, [(f, 0)])); w.until(lambda: [x for x in c.acks if x[:2] == (SUBACK, pid)] if hasattr(c, "acks") else True, 1, "x") if False else None
            try: a = c.wait_ack(SUBACK, pid); codes.append(list(getattr(a, "rcs", None) or getattr(a, "codes", None) or [])[0] < 0x80)
            except Exception: codes.append(None); break
        o["wild"] = tuple(codes); c.drop()
        c, rc = connect_("a+b", "u%d" % i, "pw", 4); o["unsafe"] = rc == 0; c.drop()
        # the ACL: what anonymous canaries may write
        s, rc = connect_("aclobs", "u%d" % i, "pw")
        for d in (0, 1): s.send(subscribe(5, s.pid(), [("forbidden%d/x" % d, 0)]))
        w.barrier([s]); tok = u()
        for d in (0, 1): can[0].send(publish(4, "forbidden%d/x" % d, tok, 0))
        w.barrier([can[0]]); w.barrier([s]); w.settle(0.002); w.barrier([s]); o["acl"] = tuple(sorted(q.topic for q in s.pubs)); s.drop()
        for j in (0, 1):
            x = socket.socket(); x.settimeout(5)
            try: x.connect(("127.0.0.1", ports[j])); o["port%d" % j] = True
            except ConnectionRefusedError: o["port%d" % j] = False
            finally: x.close()
        if o["port0"]:
            import ssl
            cx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); cx.check_hostname = False; cx.load_verify_locations(b.path("ca.crt")); x = socket.create_connection(("127.0.0.1", ports[0]), 5); y = cx.wrap_socket(x); o["cert"] = dict(z[0] for z in y.getpeercert()["subject"])["commonName"]; y.close()
        o["bridge"] = bridges()
        return o
    def want(m, lis):
        g = lambda key, d: m.get(key, d); o = {}
        o["allow_anonymous"] = g("allow_anonymous", "true"); pw = g("mosquitto_password_file", "{dir}/pw0"); o["login0"] = pw.endswith("0"); o["login1"] = pw.endswith("1")
        # with an unknown user the password file has no opinion
        o["alias"] = int(g("max_incoming_topic_alias_value", 65535)); o["max_qos"] = int(g("max_qos", 2)); o["subid"] = 1 if g("subscription_identifiers_enabled", "true") == "true" else 0; o["retain"] = 0 if g("retained_messages_mode", "enabled") in ("drop", "disconnect_with_error", "downgrade") else 1
        o["packet"] = int(g("max_packet_size", first["packet"])); o["expiry"] = min(4000000, int(g("expire_sessions_after_seconds", first["expiry"])));  o["recv"] = min(65535, int(g("max_qos_msg_pending_per_client", 65535)))
        d = int(g("minimum_wildcard_subscription_depth", 0)); o["wild"] = (d < 1, d < 2, d <= 2); o["unsafe"] = g("allow_unsafe_clientid_chars", "false") == "true"; n = g("mosquitto_acl_file", "{dir}/acl0")[-1]; o["acl"] = ("forbidden%d/x" % (1 - int(n)),)
        o["bridge"] = [lis["bridge"]] if "bridge" in lis else []
        o["port0"], o["port1"] = "tls" in lis, "plain" in lis
        if o["port0"]: o["cert"] = "cert" + lis["tls"]
        return o
    stub = socket.socket(); stub.bind(("127.0.0.1", 0)); stub.listen(20); stub.setblocking(False); links = []
    def bridges():
        """Client id prefixes of the bridges that are connected to the stub."""
        while True:
            try: x = stub.accept()[0]; x.setblocking(False); links.append([x, b"", 0])
            except BlockingIOError: break
        for l in list(links):
            try:
                d = l[0].recv(65536)
                if not d: raise ConnectionError
                l[1] += d
                if not l[2]: l[0].sendall(b"\x20\x02\0\0"); l[2] = 1
                elif d[0] == 0xc0: l[0].sendall(b"\xd0\0")
            except BlockingIOError: pass
            except OSError: l[0].close(); links.remove(l)
        return sorted(n for l in links for n in ("bra", "brb") if n.encode() in l[1][:60])
    lis = {}
    def text(m, lis, bad=None):
        b.conf = dict(base); b.conf.update(m); t = b.conf_text()
        if "tls" in lis: t += "listen {\n protocol mqtt\n inet_protocol ip4\n inet4_bind_address 127.0.0.1\n port %d\n fullchain %s/%s.crt\n privkey %s/%s.key\n}\n" % (ports[0], b.dir, lis["tls"], b.dir, lis["tls"])
        if "plain" in lis: t += "listen {\n protocol mqtt\n inet_protocol ip4\n inet4_bind_address 127.0.0.1\n port %d\n}\n" % ports[1]
        if "bridge" in lis: t += "bridge {\n clientid_prefix %s\n address 127.0.0.1\n port %d\n inet_protocol ip4\n protocol_version mqtt3.1.1\n publish nothing/#\n}\n" % (lis["bridge"], stub.getsockname()[1])
        if bad: t = bad + "\n" + t if r.random() < 0.5 else t + bad + "\n"
        return t.replace("{dir}", b.dir)
    J = Judge.__new__(Judge); J.ctx = ctx; J.b = b; J.w = w; J.canary = can; J.u = u
    first = retry_connect(look)
    for rnd in range(24 if ctx.tier == "quick" else 60):
        for _ in range(r.randint(0, 4)):     # refused ones, in a row
            traffic(r.randint(0, 6)); bad = r.choice(BAD); m2 = dict(model); kk = r.choice(sorted(CH)); m2[kk] = r.choice(CH[kk]); took = J.reload(text(m2, {} if r.random() < 0.5 else {"tls": "B", "plain": 1}, bad), "refused: " + bad[:80], False, r.choice([1, 1, 4])); ctx.step(rnd, "bad", bad)
            if took: raise Violation("accepted: %s" % bad)
            ctx.count("refused")
        m2 = dict(model); l2 = dict(lis)
        if r.random() < 0.8:
            for kk in r.sample(sorted(CH), r.randint(1, 4)): m2[kk] = r.choice(CH[kk])
            if r.random() < 0.5: l2 = {**({"tls": r.choice("AB")} if r.random() < 0.6 else {}), **({"plain": 1} if r.random() < 0.5 else {}), **({"bridge": r.choice(["bra", "brb"])} if r.random() < 0.5 else {})}
            traffic(r.randint(0, 10)); ctx.step(rnd, m2, l2)
            if not J.reload(text(m2, l2), "accepted", True, r.choice([1, 1, 4])): raise Violation("refused: %s: %s" % (m2, J.errline()))
            model, lis = m2, l2; ctx.count("accepted")
        traffic(5); J.alive("reload")
        exp = want(model, lis); got_ = {}
        for i in range(30):      # the workers apply it one after the other
            got_ = retry_connect(look)
            if {**got_} == exp: break
            if got_["bridge"] != exp["bridge"]: b.advance(2)
            time.sleep(0.02 if i < 20 else 0.3)
        for x in sorted(exp): ctx.eval((x, str(exp[x])))
        if got_ != exp: raise Violation("after the reload: %s; configuration %s" % ({x: (got_.get(x), exp.get(x)) for x in set(got_) | set(exp) if got_.get(x) != exp.get(x)}, model))
        ctx.count("observations")
        J.alive("reload")
    w.barrier(can); w.until(lambda: all(len(c.pubs) >= len(sent) for c in can), 30, "the canaries' messages")
    for c in can:
        g = [bytes(p.payload) for p in c.pubs]
        if sorted(g) != sorted(sent): raise Violation("canary got %d messages for %d sent" % (len(g), len(sent)))
    ctx.count("conserved", len(sent) * len(can)); b.stop()
