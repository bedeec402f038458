from common import *
RULE = ("Random ACL files (user, anonymous and pattern rules, %u, %c, wildcards, denials) and clients of many users, client ids named like other users included, publish on every topic by every path (live at each QoS and version, topic alias, retained, will and delayed will, queue of an offline session, redelivery, "
        "shared subscription, after a restart, after a reload of the file); every delivery and every absence is compared with an independent evaluation of the file, and acknowledgements with the protocol. Evaluation = one (publisher, topic, receiver, path) decision; "
        "distinct by (path, who, topic, allowed to write, allowed to read, QoS, version).")
BUDGET = {"quick": 420}
ASSUMPTIONS = ["Topics starting with '$' are not judged; messages queued or retained before their publisher's or receiver's rights changed are judged by the receiver's rights when they were queued (queues) or now (retained)."]

def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    out = [("model-%d" % i, "model", {"k": i}) for i in range(14 * n)]
    out += [("wills-%d" % i, "wills", {"k": i}) for i in range(5 * n)]
    out += [("reload-%d" % i, "reload", {"k": i}) for i in range(3 * n)]
    out += [("file", "file"), ("broken", "broken")]
    return out

USERS = [None, "u1", "u2", "a", "c1"]
CIDS = ["c1", "c2", "u1", "b"]
LV = ["a", "b", "u1", "u2", "c1", "c2", "", "%u", "%c"]

class Acl:
    def __init__(self): self.anon, self.user, self.pat, self.text = [], {}, [], ""
    def add(self, where, grant, topic, style=0):
        if where == "pattern": self.pat.append((grant, topic))
        elif where is None: self.anon.append((grant, topic))
        else: self.user.setdefault(where, []).append((grant, topic))
    def render(self, r):
        out = ["# rules", ""]
        def line(kw, g, t):
            kw = r.choice([kw, kw, kw.upper()])
            return "%s%s %s" % (r.choice(["", "", "  "]), kw, t) if g == "readwrite" and r.random() < 0.5 else "%s %s %s%s" % (kw, r.choice([g, g, g.upper()]), t, r.choice(["", "  "]))
        for g, t in self.anon: out.append(line("topic", g, t))
        pats = [line("pattern", g, t) for g, t in self.pat]; r.shuffle(pats)
        for u, rules in self.user.items():
            if pats and r.random() < 0.5: out.append(pats.pop())
            out += ["", "user %s" % u, "# of " + u] + [line("topic", g, t) for g, t in rules]
        self.text = "\n".join(out + pats) + r.choice(["", "\n"])
        return self.text
    def may(self, access, user, cid, topic):
        """As documented for Mosquitto: own rules (or those for anonymous clients), plus patterns; a denial overrides."""
        got = [g for g, t in (self.anon if user is None else self.user.get(user, [])) if match(t, topic)]
        for g, t in self.pat:
            lv = t.split("/")
            if "%u" in lv and user is None: continue
            f = []
            bad = False
            for x in lv:
                if x == "%u": x = user
                elif x == "%c": x = cid
                f.append(x)
            if self.pmatch(f, topic.split("/"), lv): got.append(g)
        if "deny" in got: return False
        return any(g in (access, "readwrite") for g in got)
    @staticmethod
    def pmatch(f, t, lv):
        for i, x in enumerate(f):
            if lv[i] == "#": return True
            if i >= len(t): return False
            if lv[i] != "+" and x != t[i]: return False
        return len(f) == len(t)

def rule(r, pattern):
    n = r.randint(1, 3); p = []
    for i in range(n):
        k = r.random()
        if pattern and k < 0.4: p.append(r.choice(["%u", "%c"]))
        elif k < 0.55: p.append("+")
        elif k < 0.7 and i == n - 1: p.append("#")
        else: p.append(r.choice(LV))
    t = "/".join(p)
    if t in ("", "/") or t.strip() != t: return rule(r, pattern)
    return r.choice(["read", "write", "readwrite", "readwrite", "read", "write", "deny" if r.random() < 0.6 else "write"]), t

def acl(r):
    a = Acl()
    for u in USERS:
        for _ in range(r.choice([0, 1, 3, 5])): a.add(u, *rule(r, False))
    for _ in range(r.choice([0, 1, 3, 5])): a.add("pattern", *rule(r, True))
    if r.random() < 0.5: a.add(r.choice(USERS), "readwrite", "#")
    if r.random() < 0.3: a.add("pattern", "readwrite", "#")
    return a

def topics(r, a, n):
    """Topics near the rules."""
    out = set()
    rules = a.anon + a.pat + [x for v in a.user.values() for x in v]
    while len(out) < n:
        if rules and r.random() < 0.7:
            t = r.choice(rules)[1]; lv = []
            for x in t.split("/"):
                if x in ("%u", "%c"): x = r.choice(["u1", "u2", "a", "c1", "c2", "b", "", x])
                elif x == "+": x = r.choice(LV)
                elif x == "#":
                    lv += r.choice([[], ["a"], ["b", "c1"]]); break
                lv.append(x)
            t = "/".join(lv)
        else: t = rtopic(r, 3, LV)
        if t: out.add(t)
    return sorted(out)

def setup(ctx, **kw):
    r = ctx.rng; a = acl(r)
    b = ctx.broker(threads=r.choice([1, 2, 3]), conf=dict(BIGQ, mosquitto_acl_file="{dir}/acl", allow_unsafe_clientid_chars="true", allow_unsafe_username_chars="true"), files={"acl": a.render(r)}, **kw)
    ctx.step("acl", a.text); return r, a, b

def denied_ack(c, q, pid):
    """The acknowledgement of a denied publish: as if accepted for MQTT 3, 0x87 for MQTT 5."""
    k = c.acks.get((PUBACK if q == 1 else PUBREC, pid))
    return k

def pub(ctx, w, c, t, pay, q, ok, retain=False, pr=None, wire=None):
    """Publish and check the acknowledgement."""
    p = c.pub(t if wire is None else wire, pay, q, retain=retain, pr=pr, wait=False)
    w.barrier([c])
    if not c.open: raise Violation("publisher %s was disconnected over %s (allowed: %s)" % (c.name, t, ok))
    if q:
        rc = ctx_ack(c, q, p)
        if rc is None: raise Violation("QoS %d publish on %s (allowed: %s) was not acknowledged" % (q, t, ok))
        if c.ver == 5 and (rc >= 0x80) != (not ok): raise Violation("QoS %d publish on %s, allowed: %s, got reason code 0x%02x" % (q, t, ok, rc))
        if not ok and c.ver == 5 and rc != 0x87: raise Violation("denied publish got reason code 0x%02x" % rc)

def ctx_ack(c, q, pid):
    x = [p for p in c.log_in if p.type == (PUBACK if q == 1 else PUBREC) and p.pid == pid]
    return None if not x else (x[-1].rc or 0)

def con(w, b, who, ver, name, **kw):
    user, cid = who
    c = Client(w, b, cid, ver, name=name); c.log_in = []
    c.on_packet = lambda p: c.log_in.append(p) if p.type in (PUBACK, PUBREC) else None
    return c.connect(user=user, pw=None if user is None else "x", **kw)

def model(ctx, k):
    r, a, b = setup(ctx, storage=True, noise=30); w = ctx.world(b); u = Uniq("m")
    # every client id once at a time: who = (user, client id)
    cids = CIDS + ["d1", "d2", "d3", "d4"]; r.shuffle(cids); who = [(r.choice(USERS), c) for c in cids]
    S = {}
    for i, x in enumerate(who[:5]):
        v = r.choice([3, 4, 5, 5]); c = con(w, b, x, v, "sub-%s-%s" % x, clean=False, pr={"session_expiry": 100000, **({"topic_alias_max": 3} if i % 2 else {})} if v == 5 else None)
        qs = r.randint(0, 2); c.sub(("#", qs)); S[x] = {"ver": v, "c": c, "q": qs, "exp": [], "off": False}
    shared = who[5]; sh = con(w, b, shared, 5, "shared", clean=False, pr={"session_expiry": 100000}); sh.sub(("$share/g/#", 1)); S[shared] = {"ver": 5, "c": sh, "q": 1, "exp": [], "off": False}
    ret = {}; T = topics(r, a, 14)
    def check(where):
        for x, s in S.items():
            if s["off"]: continue
            w.barrier([s["c"]]); d = diff(s["exp"], [(p.topic, bytes(p.payload)) for p in s["c"].pubs])
            if d: raise Violation("%s: user %s with client id %s: %s" % (where, x[0], x[1], d))
            s["exp"] = []; s["c"].pubs.clear()
    def traffic(path, n):
        for x in who[6:]:
            v = r.choice([3, 4, 5, 5]); p = con(w, b, x, v, "pub-%s-%s" % x); al = {}
            for t in r.sample(T, min(n, len(T))):
                q = r.randint(0, 2); retain = r.random() < 0.3; ok = a.may("write", *x, t); pay = u(); pr = None; wire = None
                if v == 5 and r.random() < 0.4:
                    if t in al and r.random() < 0.8: wire = ""; pr = [("topic_alias", al[t])]
                    else: al = {t2: y for t2, y in al.items() if y != 1 + len(al) % 3}; al[t] = 1 + len(al) % 3 if (1 + len(al) % 3) not in al.values() else max(al.values()) + 1; pr = [("topic_alias", al[t])]
                ctx.step("pub", path, x, v, t, q, retain, ok, wire)
                pub(ctx, w, p, t, pay, q, ok, retain, pr, wire)
                if retain and ok: ret[t] = (x, pay)
                for y, s in S.items():
                    rd = a.may("read", *y, t)
                    if ok and rd and not (s["off"] and min(q, s["q"]) == 0): s["exp"].append((t, pay))
                    ctx.eval((path, x, y, t, ok, rd, q, v)); ctx.count("allowed" if ok and rd else "denied_write" if not ok else "denied_read")
            p.disconnect()
    def retained(path):
        for nth, x in enumerate([who[6], who[7]] + who[:2]):
            y = (x[0], "fresh%d%s" % (nth, path[:3].strip())); c = con(w, b, y, r.choice([4, 5]), "fresh"); c.sub(("#", 1)); w.barrier([c]); w.settle(0.02); w.barrier([c])
            exp = [(t, pay) for t, (_, pay) in ret.items() if a.may("read", *y, t)]
            d = diff(exp, [(p.topic, bytes(p.payload)) for p in c.pubs])
            if d: raise Violation("%s, retained messages for user %s: %s" % (path, x[0], d))
            for t in ret: ctx.eval((path, "retained", y, t, a.may("read", *y, t)))
            c.disconnect()
    traffic("live", 8); check("live"); retained("live")
    off = r.sample(list(S), 4)
    for y in off: S[y]["off"] = True; S[y]["c"].disconnect(pr={"session_expiry": 100000} if S[y]["ver"] == 5 else None)
    traffic("offline", 6)
    if k % 2:
        check("others")
        for y, s in S.items():
            if not s["off"]: s["off"] = True; s["c"].disconnect(pr={"session_expiry": 100000} if s["ver"] == 5 else None)
        b.restart(); w.close(); w = ctx.world(b); ctx.count("restarts")
    for y, s in S.items():
        if s["off"]:
            s["c"] = con(w, b, y, s["ver"], "sub-%s-%s" % y, clean=False, pr={"session_expiry": 100000} if s["ver"] == 5 else None); s["off"] = False
            if s["ver"] != 3 and not s["c"].connack.sp: raise Violation("session not there")
    check("queue%s" % (" after a restart" if k % 2 else "")); retained("retained%s" % (" after a restart" if k % 2 else ""))
    traffic("live again", 4); check("live again"); retained("retained again")

def wills(ctx, k):
    """Wills of every user on every kind of topic, immediate and delayed, retained or not."""
    r, a, b = setup(ctx); w = ctx.world(b); u = Uniq("w"); T = topics(r, a, 10)
    a0 = a; obs = []
    # observers that may read everything, and one of every user
    O = []
    for i, us in enumerate(USERS): c = con(w, b, (us, "o%d" % i), 5, "obs%d" % i); c.sub(("#", 2)); O.append(((us, "o%d" % i), c, []))
    due = []
    for n in range(40):
        x = (r.choice(USERS), "w%d" % n if r.random() < 0.7 else r.choice(["c1", "c2"]) + "" if n % 9 == 0 else "w%d" % n); v = r.choice([3, 4, 5, 5]); t = r.choice(T); q = r.randint(0, 2); retain = r.random() < 0.3; pay = u(); dl = r.choice([0, 0, 5]) if v == 5 else 0
        c = con(w, b, x, v, "will%d" % n, will={"topic": t, "payload": pay, "qos": q, "retain": retain, "pr": [("will_delay", dl)] if dl else []}, pr={"session_expiry": 100} if dl else None)
        ok = a.may("write", *x, t); ctx.step("will", x, v, t, ok, dl); c.drop()
        for y, o, e in O:
            rd = a.may("read", *y, t)
            if ok and rd: e.append((t, pay))
            ctx.eval(("will", dl, x[0], y[0], t, ok, rd, v)); ctx.count("will_allowed" if ok and rd else "will_denied")
    w.settle(0.2); b.advance(8)
    for _ in range(3): b.advance(3); tick(w, b, 3)
    tot = lambda: sum(len(c.pubs) for _, c, _ in O)
    w.until(lambda: tot() >= sum(len(e) for _, _, e in O), 8, "wills that are allowed (%s)" % (lambda: [diff(e, [(p.topic, bytes(p.payload)) for p in c.pubs]) for _, c, e in O])()) if False else None
    t0 = time.monotonic()
    while tot() < sum(len(e) for _, _, e in O) and time.monotonic() - t0 < 6: w.pump(0.1)
    w.barrier([c for _, c, _ in O])
    for y, o, e in O:
        d = diff(e, [(p.topic, bytes(p.payload)) for p in o.pubs])
        if d: raise Violation("wills for user %s: %s" % (y[0], d))

def reload(ctx, k):
    """The file changes while clients are connected: new rules for what is published from then on, old ones never come back."""
    r, a, b = setup(ctx); w = ctx.world(b); u = Uniq("r")
    who = [(us, "k%d" % i) for i, us in enumerate(USERS)]
    C = [(x, con(w, b, x, r.choice([4, 5, 5]), "c%d" % i)) for i, x in enumerate(who)]
    for x, c in C: c.sub(("#", 2))
    for gen in range(4):
        T = topics(r, a, 10)
        for x, c in C:
            for t in r.sample(T, 6):
                q = r.randint(0, 2); ok = a.may("write", *x, t); pay = u(); pub(ctx, w, c, t, pay, q, ok)
                for y, o in C:
                    rd = a.may("read", *y, t); o.exp = getattr(o, "exp", [])
                    if ok and rd: o.exp.append((t, pay))
                    ctx.eval(("reload", gen > 0, x[0], y[0], t, ok, rd, q))
        w.barrier([c for _, c in C])
        for y, o in C:
            d = diff(o.exp, [(p.topic, bytes(p.payload)) for p in o.pubs]); o.exp = []; o.pubs.clear()
            if d: raise Violation("after %d reloads, user %s: %s" % (gen, y[0], d))
        a = acl(r); n = b.log().count("Reloading"); time.sleep(1.1); b.write("acl", a.render(r)); ctx.step("acl", a.text)
        if gen % 2: b.hup(); b.wait_log('Timer config not changed', 20, count=(gen + 1) // 2); w.settle(0.05)     # new listeners
        b.advance(3); tick(w, b, 3); b.wait_log("Change detected in .*acl", 20, count=1); w.settle(0.1)
        for _ in range(2): b.advance(3); tick(w, b, 3)
        ctx.count("reloads")

def file(ctx):
    """Details of the file format: spaces, case, several blocks of one user, deny overriding in any order, exact and parent matches."""
    text = "topic read pub/#\nuser joe\ntopic write x/y\ntopic deny x/y/secret\ntopic x/#\n\nuser amy\n topic   readwrite   spa/t\nTopic Deny pub/no\ntopic pub/#\nuser joe\ntopic read late/+\nuser joe john\ntopic readwrite other\npattern read p/%u/%c/+\npattern write q/%c/#\npattern deny q/+/no\n"
    b = ctx.broker(threads=2, conf=dict(mosquitto_acl_file="{dir}/acl"), files={"acl": text}); w = ctx.world(b)
    W = {"joe john": ["other", "q/jj/1"], "joe": ["x/y", "x", "x/z/z", "q/j/1", "q/j"], "amy": ["spa/t", "pub/yes", "pub", "q/m/1"], None: ["q/n/1"]}
    R = {"joe john": ["other"], "joe": ["x/y", "x", "x/z/z", "late/1", "p/joe/j/1"], "amy": ["spa/t", "pub/yes", "pub", "p/amy/m/5"], None: ["pub/yes", "pub", "pub/no"]}
    allt = sorted(set(sum(W.values(), []) + sum(R.values(), []) + ["x/y/secret", "late/1/2", "late", "p/joe/j", "p/joe/m/1", "p/amy/j/1", "q/j/no", "q/m/no", "q/m", "q/n", "pub/no", "sp/t", "other", "/x", "x/", "p//n/1", "p/%u/%c/1", "q/%c/1"]))
    cid = {"joe john": "jj", "joe": "j", "amy": "m", None: "n"}
    W["joe"] += ["x/"]; R["joe"] += ["x/"]; W["amy"] += ["q/m"]; W[None] += ["q/n"]
    for us in W:
        c = con(w, b, (us, cid[us]), 5, str(us))
        for t in allt: pub(ctx, w, c, t, b"x", 1, t in W[us]); ctx.eval(("file write", us, t, t in W[us]))
        c.disconnect()
    # reading: a broker-made copy via each writer; use a second broker where everybody may write but reading is as in the file
    b2 = ctx.broker(threads=2, conf=dict(mosquitto_acl_file="{dir}/acl"), files={"acl": text + "user root\ntopic write #\n"}); w2 = ctx.world(b2)
    p = con(w2, b2, ("root", "root"), 4, "root"); C = {us: con(w2, b2, (us, cid[us]), 4, str(us)) for us in R}
    for c in C.values(): c.sub(("#", 1))
    ok = [t for t in allt if t not in ("q/j/no", "q/m/no")]
    for t in ok: p.pub(t, b"x", 1, wait=False)
    w2.barrier([p]); w2.barrier(list(C.values()))
    for us, c in C.items():
        d = diff([t for t in R[us]], [x.topic for x in c.pubs])
        if d: raise Violation("user %s reads: %s" % (us, d))
        ctx.eval(("file read", us), len(ok))

def broken(ctx):
    """A file with an invalid line is not half-loaded: from the start nothing is allowed, at reload the old rules stay."""
    good = "topic read t/#\nuser joe\ntopic readwrite t/#\n"
    for bad in ("topic reed t/#\n", "tpoic read t\n", "topic read t/#/a\n", "topic\n", "user\n", "pattern read a+/b\n"):
        b = ctx.broker(threads=2, conf=dict(mosquitto_acl_file="{dir}/acl"), files={"acl": good + bad}); w = ctx.world(b)
        s = con(w, b, (None, "s"), 4, "s"); s.sub(("#", 1)); p = con(w, b, ("joe", "p"), 5, "p"); pub(ctx, w, p, "t/1", b"1", 1, False)
        time.sleep(1.1); b.write("acl", good); b.advance(3); tick(w, b, 2); b.wait_log("Change detected", 20, count=2); b.advance(3); tick(w, b, 2)
        pub(ctx, w, p, "t/1", b"2", 1, True); pub(ctx, w, p, "u", b"2", 1, False)
        time.sleep(1.1); b.write("acl", "user joe\ntopic readwrite u\n" + bad); b.advance(3); tick(w, b, 2); b.wait_log("Error loading Mosquitto ACL", 20, count=1); b.advance(3); tick(w, b, 2)
        pub(ctx, w, p, "t/1", b"3", 1, True); pub(ctx, w, p, "u", b"3", 1, False)
        w.barrier([s])
        if [bytes(x.payload) for x in s.pubs] != [b"2", b"3"]: raise Violation("with the bad line %r: got %s" % (bad, [bytes(x.payload) for x in s.pubs]))
        ctx.eval(("broken", bad)); b.stop(); w.close()
