from common import *
import base64, hashlib, ssl, json
from lib import build, certs
RULE = ("Connections with every verdict (password file, plugin synchronous / from a thread / delayed / never, extended authentication, certificates, PROXY names, anonymous) send packets before CONNECT and pipeline packets behind it, with wills and with the client id of a live or offline victim; "
        "an observer subscribed to everything, the victim, its queue, the retained store and the attacker's own input are compared with: no effect at all unless the verdict is success, then every pipelined packet once; CONNACK codes and refusals are compared with an independent evaluation of the credentials. "
        "Evaluation = one connection judged or one absence/presence of an effect; distinct by (verdict, timing, version, victim state, packets before, packets behind, end).")
BUDGET = {"quick": 420}
ASSUMPTIONS = ["What the plugin is asked after a denial by the password file is not judged (documentation and code comment contradict each other)."]
def prebuild(): build.build_plugin(build.VERIF + "/plugins/monitor.cpp", "monitor")
def plugin(): return build.build_plugin(build.VERIF + "/plugins/monitor.cpp", "monitor")

def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    out = [("gate-%d" % i, "gate", {"k": i}) for i in range(12 * n)]
    out += [("passwd-%d" % i, "passwd", {"k": i}) for i in range(3 * n)]
    out += [("ext-%d" % i, "ext", {"k": i}) for i in range(4 * n)]
    out += [("names-%d" % i, "names", {"k": i}) for i in range(2 * n)]
    out += [("early-%d" % i, "early", {"k": i}) for i in range(2 * n)]
    out += [("flood", "flood", {}), ("cert", "cert", {}), ("haproxy", "haproxy", {}), ("listener", "listener", {})]
    return out

CODES = {"good": (0, {0}), "bad": (0x87, {5}), "acl": (0x87, {5}), "err": (0x80, {2, 3, 5, None}), "throw": (0x80, {2, 3, 5, None}), "unavail": (0x88, {3}), "method": (0x8C, {2, 3, 5, None})}

def packets(r, ver, u, tag, sub=True):
    """Random valid packets: (name, bytes, [(topic, payload)], retained?)"""
    out = []; pid = [1000]
    for i in range(r.randint(1, 5)):
        k = r.choice(["pub0", "pub1", "pub2", "ret", "ping"] + (["sub", "unsub"] if sub else []))
        pid[0] += 1
        t = "eff/%s/%d" % (tag, i)
        if k in ("pub0", "pub1", "pub2"):
            p = u(); out.append((k, publish(ver, t, p, int(k[3]), False, pid[0]), (t, p), False))
        elif k == "ret":
            p = u(); out.append((k, publish(ver, t, p, 1, True, pid[0]), (t, p), True))
        elif k == "ping": out.append((k, PING, None, False))
        elif k == "sub": out.append((k, subscribe(ver, pid[0], [("#", 1)]), None, False))
        else: out.append((k, unsubscribe(ver, pid[0], ["v/#"]), None, False))
    return out

def gate(ctx, k):
    r = ctx.rng; threads = r.choice([1, 2, 4])
    b = ctx.broker(threads=threads, noise=r.choice([0, 0, 200]), conf=dict(BIGQ, plugin=plugin(), plugin_opt_log="{dir}/plug"))
    w = ctx.world(b); u = Uniq("g%d-" % k)
    obs = Client(w, b, "obs", 5); obs.connect(user="o", pw="good"); seen = []
    obs.on_publish = lambda p: seen.append((p.topic, bytes(p.payload)))
    obs.sub(("#", 2))
    for rnd in range(10 if ctx.tier == "quick" else 16):
        tag = "r%d" % rnd; ver = r.choice([3, 4, 5, 5]); vver = r.choice([4, 5])
        vstate = r.choice(["none", "live", "offline", "live", "live"])
        cid = "vic%d" % rnd if vstate != "none" else "att%d" % rnd
        base = r.choice(["good", "bad", "bad", "err", "unavail", "throw", "acl", "method", "good"])
        timing = r.choice(["sync", "sync", "async", "delay", "task", "never"])
        ms = r.choice([1, 30, 120])
        pw = base if timing == "sync" else "never" if timing == "never" else "%s-%d-%s" % (timing, ms, base)
        if timing != "sync" and base in ("throw", "method"): base = "bad"; pw = pw.rsplit("-", 1)[0] + "-bad" if timing != "never" else pw
        clean = r.random() < 0.5
        vic = None; queued = []
        if vstate != "none":
            vic = Client(w, b, cid, vver, name="victim"); vic.connect(clean=False, user="U", pw="good", pr={"session_expiry": 1000} if vver == 5 else None)
            vic.sub(("v/%d/#" % rnd, 1))
            if vstate == "offline":
                drop_and_wait(w, b, vic, threads)
                for i in range(r.randint(1, 3)):
                    p = u(); obs.pub("v/%d/q" % rnd, p, 1); queued.append(p)
                w.barrier([obs]); seen.clear()
        will = None
        if r.random() < 0.6: will = {"topic": "eff/%s/will" % tag, "payload": u(b"will"), "qos": r.randint(0, 2), "retain": r.random() < 0.4}
        pre = packets(r, ver, u, tag + "pre") if r.random() < 0.4 else []
        post = packets(r, ver, u, tag + "post") if r.random() < 0.8 else []
        extra = r.choice([None, None, None, None, "disconnect", "auth", "connect"])
        con = connect(ver, cid, clean, 60000, "U", pw, will, {"session_expiry": 1000} if ver == 5 else None)
        tail = {"disconnect": disconnect(ver), "auth": auth(0x18, {"auth_method": "M", "auth_data": "good"}), "connect": con, None: b""}[extra]
        ctx.step("round", rnd, "v%d" % ver, cid, vstate, pw, "clean", clean, "pre", [x[0] for x in pre], "post", [x[0] for x in post], "extra", extra, "will", will)
        a = Client(w, b, cid, ver, name="attacker"); a.will = will
        stream = b"".join(x[1] for x in pre) + con + b"".join(x[1] for x in post) + tail
        a.ping_sent = sum(x[0] == "ping" for x in post)
        if r.random() < 0.5: a.send_raw(stream)
        else:
            cuts = sorted(r.sample(range(1, len(stream)), min(3, len(stream) - 1)))
            for x, y in zip([0] + cuts, cuts + [len(stream)]): a.send_raw(stream[x:y]); (time.sleep(0.002) if r.random() < 0.5 else None)
        end = r.choice(["wait", "wait", "cut"]) if timing not in ("sync", "never") else "cut" if timing == "never" else "wait"
        pending = timing == "never" or (timing != "sync" and ms >= 100)
        if pending:
            # nothing happened yet: the victim is served, the attacker has no answer
            if a.open: w.settle(0.02)
            if vstate == "live":
                w.barrier([vic])
                if not vic.open: raise Violation("victim was disconnected although the verdict about the other connection is pending")
                ctx.eval(("pending-victim", timing, ver, extra))
            if seen and timing == "never": raise Violation("effect before authentication: %r" % (seen[:3],))
        if timing == "never" and not extra and r.random() < 0.5: b.advance(20); tick(w, b, threads)
        success = False
        if end == "cut":
            w.settle(r.choice([0, 0.005, 0.05]))
            a.drop(rst=r.random() < 0.3)
            time.sleep(ms / 1000 + 0.03) if timing != "never" else None
        else:
            w.until(lambda: a.connack or not a.open, 30, "answer to CONNECT with verdict %s" % pw)
        if a.connack is not None: success = a.connack.rc == 0
        strict = end != "cut"
        if strict:
            rc = a.connack.rc if a.connack else None
            if extra and timing != "sync":     # ends the connection before the verdict (or is deferred)
                if rc == 0 and base != "good": raise Violation("success for verdict %s" % pw)
            elif extra and base == "good" and rc is None: pass     # closed at once: the CONNACK may be lost to a TCP reset
            elif (post or extra) and base != "good" and rc is None and not a.open: pass
            elif base == "good":
                if rc != 0: raise Violation("CONNACK %r for verdict %s (closed: %s, %r)" % (rc, pw, not a.open, a.disc))
            else:
                want = CODES[base]
                if ver == 5:
                    if rc != want[0]: raise Violation("CONNACK 0x%02x for verdict %s, expected 0x%02x" % (-1 if rc is None else rc, pw, want[0]))
                elif rc not in want[1]: raise Violation("CONNACK %r for verdict %s in version %d, expected one of %s" % (rc, pw, ver, want[1]))
                w.until(lambda: not a.open, 10, "close after refusal %s" % pw)
            ctx.eval(("code", base, timing, ver, vstate, clean))
        exp = []
        if base != "good" or timing == "never": maxeff = set()
        else:
            maxeff = {x[2] for x in post if x[2]}
            if will: maxeff.add((will["topic"], bytes(will["payload"])))
        sure = success and strict and extra is None
        if sure:
            w.barrier([a]); exp = [x[2] for x in post if x[2]]
            if a.connack.sp != (1 if ver > 3 and not clean and vstate != "none" else 0): raise Violation("session present %d, clean %s, victim %s" % (a.connack.sp, clean, vstate))
            for x in post:      # everything was acknowledged
                if x[0] in ("pub1", "ret"): t = PUBACK
                elif x[0] == "pub2": t = PUBREC
                elif x[0] == "sub": t = SUBACK
                elif x[0] == "unsub": t = UNSUBACK
                else: continue
                pid = [q.pid for q in a.inbox if q.type == t]
                if not pid: raise Violation("%s behind CONNECT was not acknowledged" % x[0])
            if vstate == "live": w.until(lambda: not vic.open, 20, "close of the taken over connection")
            normal = r.random() < 0.5
            if normal: a.disconnect()
            else: a.drop()
            if will and not normal: exp.append((will["topic"], bytes(will["payload"])))
        elif a.open and not (success and extra): a.drop()
        if not sure and a.open: w.until(lambda: not a.open, 20, "close after protocol error")
        tick(w, b, threads); w.barrier([obs]); tick(w, b, threads); w.barrier([obs])
        if will and sure and not normal: w.until(lambda: (will["topic"], bytes(will["payload"])) in seen, 20, "will of an authenticated connection")
        if sure:
            d = diff(exp, seen)
            if d: raise Violation("effects of an authenticated connection: " + d)
        else:
            bad = [x for x in seen if x not in maxeff]
            if bad: raise Violation("effect of a connection that was not authenticated (verdict %s): %r" % (pw, bad[:3]))
            if len(set(seen)) != len(seen): raise Violation("effect happened twice: %r" % seen)
        ctx.eval(("effects", base, timing, ver, vstate, bool(pre), bool(post), extra, bool(will), end, bool(exp)), n=max(1, len(pre) + len(post)))
        ctx.count("authenticated" if success else "refused or unfinished"); ctx.count("effects_confirmed", len(exp)); ctx.count("packets_before_authentication", len(pre) + (0 if success else len(post)))
        if not success and a.pubs: raise Violation("PUBLISH delivered to an unauthenticated connection: %r" % a.pubs[0])
        seen.clear()
        # retained
        ret = [x[2] for x in post if x[3]] + ([(will["topic"], bytes(will["payload"]))] if will and will["retain"] and will and (will["topic"], bytes(will["payload"])) in exp else [])
        q = Client(w, b, "q%d" % rnd, 5); q.connect(); q.sub(("eff/%spost/#" % tag, 0), ("eff/%spre/#" % tag, 0), ("eff/%s/#" % tag, 0)); w.barrier([q]); w.settle(0.01 if not ret or not sure else 0)
        if sure: w.until(lambda: len(q.pubs) >= len(ret), 20, "retained messages of an authenticated connection")
        got = [(p.topic, bytes(p.payload)) for p in q.pubs]
        if sure and diff(ret, got): raise Violation("retained store: " + diff(ret, got))
        if [x for x in got if x not in maxeff]: raise Violation("retained message of an unauthenticated connection: %r" % got)
        q.disconnect(); ctx.eval(("retained", base, timing, ver, bool(ret)))
        # victim
        if vstate != "none" and not (base == "good" and timing != "never"):
            if vstate == "live":
                p = u(); n = len(vic.pubs); obs.pub("v/%d/after" % rnd, p, 1); w.barrier([obs], [vic])
                if not vic.open: raise Violation("a refused connection (verdict %s) took over its victim's connection" % pw)
                if [bytes(x.payload) for x in vic.pubs[n:]] != [p]: raise Violation("victim of a refused connection lost its subscription: %r" % vic.pubs[n:])
                vic.drop()
            else:
                vic = Client(w, b, cid, vver, name="victim back"); vic.connect(clean=False, user="U", pw="good", pr={"session_expiry": 1000} if vver == 5 else None)
                if vic.connack.sp != 1: raise Violation("a refused connection (verdict %s) ended its victim's session" % pw)
                w.barrier([vic])
                if [bytes(x.payload) for x in vic.pubs] != queued: raise Violation("victim's queue after a refused connection: %r, expected %r" % (vic.pubs, queued))
                vic.drop()
            ctx.eval(("victim", vstate, base, timing, ver, clean, extra))
            tick(w, b, threads)
        elif vic is not None: vic.drop()
        w.barrier([obs]); seen.clear()
        if rnd == 0: ctx.sample({"verdict": pw, "pre": [x[0] for x in pre], "post": [x[0] for x in post], "effects": [str(e) for e in exp]})
    bad = [l for l in open(b.path("plug"), errors="replace") if '"BAD"' in l]
    if bad: raise Violation("plugin: " + bad[0])
    for c in list(w.clients): c.drop()

def h6(pw, salt): return "$6$%s$%s" % (base64.b64encode(salt).decode(), base64.b64encode(hashlib.sha512(pw + salt).digest()).decode())
def h7(pw, salt, it): return "$7$%d$%s$%s" % (it, base64.b64encode(salt).decode(), base64.b64encode(hashlib.pbkdf2_hmac("sha512", pw, salt, it, 64)).decode())

def passwd(ctx, k):
    r = ctx.rng; anon = r.random() < 0.5
    PWS = [b"x", b"", b"secret", b"Secret", b"secret ", "ü€😀".encode(), b"p:w", b"#", b"a" * 300, bytes(range(256)), b"secre", b"secretsecret", b"nul\0inside", b"nul"]
    def mkfile(users):
        lines = []
        for n, (pw, h, bad) in users.items():
            salt = bytes(r.randrange(256) for _ in range(r.choice([12, 16, 64])))
            l = n + ":" + (h6(pw, salt) if h == 6 else h7(pw, salt, r.choice([1, 101, 1000])))
            if bad == "hash": l = n + ":" + "$6$!!!$!!!"
            if bad == "fields": l = n + ":$6$abcd"
            if bad == "plain": l = n + ":secret"
            if bad == "type": l = l.replace("$6$", "$5$").replace("$7$", "$8$")
            lines.append(l)
        for _ in range(r.randint(0, 3)): lines.insert(r.randrange(len(lines) + 1), r.choice(["", "# comment", "garbage", "a:b:c", ":", "$6$"]))
        return "\n".join(lines) + r.choice(["", "\n"])
    def mk():
        return {n: (r.choice(PWS), r.choice([6, 7]), r.choice([None] * 8 + ["hash", "fields", "plain", "type"])) for n in r.sample(["u1", "u2", "U1", "ü", "a b", "user@x", "x" * 100, "u", "u1x"], 6)}
    users = mk()
    b = ctx.broker(threads=2, anonymous=anon, conf={"mosquitto_password_file": "{dir}/pw"}, files={"pw": mkfile(users)})
    w = ctx.world(b)
    for rnd in range(3):
        names = list(users) + ["nobody", None, "u3", "u1"]
        for _ in range(45):
            n = r.choice(names); ver = r.choice([3, 4, 5]); ent = users.get(n)
            pw = r.choice(PWS) if r.random() < 0.5 or not ent else ent[0]
            if r.random() < 0.1: pw = None
            if n is None and ver < 5: pw = None
            valid = ent is not None and not ent[2]
            ok = (anon if n is None else (pw or b"") == ent[0] if valid else anon)
            if n is None and not anon and pw is not None: ok = False
            nth = getattr(w, "nth", 0) + 1; w.nth = nth; c = Client(w, b, "c%d" % nth, ver); c.connect(user=n, pw=pw, expect=None)
            if c.connack is None: raise Violation("no CONNACK for user %r" % n)
            want = 0 if ok else 0x87 if ver == 5 else 5
            if c.connack.rc != want: raise Violation("user %r password %r (file: %r, anonymous %s): CONNACK 0x%02x, expected 0x%02x" % (n, pw, ent, anon, c.connack.rc, want))
            if ok: w.barrier([c]); c.disconnect()
            else: c.wait_closed()
            ctx.eval((n, pw, ent[1:] if ent else None, ver, anon, ok)); ctx.count("logins_accepted" if ok else "logins_refused")
        old = b.log(); users = mk(); os.utime(b.path("pw")); b.write("pw", mkfile(users))
        # reread every 2 seconds by each thread
        for _ in range(2): b.advance(3); tick2(w, b, anon)
    for c in list(w.clients): c.drop()

def tick2(w, b, anon):
    """Main loop timers and both workers have run (with or without being allowed in)."""
    for _ in range(2):
        cs = []
        for i in range(4):
            c = Client(w, b, "tk%d" % i, 5); c.connect(expect=None, user=None if anon else "tick", pw=None if anon else "tick"); cs.append(c)
        for c in cs: c.drop()
        time.sleep(0.1)

def ext(ctx, k):
    r = ctx.rng; threads = r.choice([1, 2])
    acl = "user alice\ntopic readwrite a/#\nuser admin\ntopic readwrite #\nuser o\ntopic readwrite #\n"
    useacl = k % 2 == 1
    conf = dict(BIGQ, plugin=plugin(), plugin_opt_log="{dir}/plug")
    if useacl: conf["mosquitto_acl_file"] = "{dir}/acl"
    b = ctx.broker(threads=threads, conf=conf, anonymous=False, files={"acl": acl})
    w = ctx.world(b); u = Uniq("x%d-" % k)
    obs = Client(w, b, "obs", 5); obs.connect(user="o", pw="good"); obs.sub(("#", 0)); seen = []; obs.on_publish = lambda p: seen.append(bytes(p.payload))
    def AU(c, rc, method, data): c.send(auth(rc, [("auth_method", method)] + ([("auth_data", data)] if data is not None else [])))
    for rnd in range(14):
        cid = "x%d" % rnd; n = r.randint(0, 3); method = r.choice(["M", "M", "M", "M", "N"])
        final = r.choice(["good:alice", "good:alice", "good", "bad", "unavail", "throw", "err", "async-20-good:alice", "async-1-bad", "delay-30-good:alice", "task-20-bad"])
        fault = r.choice([None, None, None, "method", "early", "reauth", "code", "drop", "data"])
        claimed = r.choice([None, "admin", "alice"])
        will = {"topic": r.choice(["a/w", "b/w"]), "payload": u(b"will"), "qos": 1} if r.random() < 0.6 else None
        ctx.step("round", rnd, n, method, final, fault, claimed, will)
        c = Client(w, b, cid, 5)
        steps = [r.choice(["more", "async-5-more", "more"]) for _ in range(n)] + [final]
        pr = [("auth_method", method), ("auth_data", steps[0]), ("session_expiry", 100)]
        early = u(); pubs = []
        c.will = will
        c.send(connect(5, cid, True, 60000, claimed, None, will, pr))
        if fault == "early": c.send(publish(5, "a/e", early, 0))    # a violation by the client: dropped or deferred
        def last(): return [p for p in c.inbox if p.type in (AUTH, CONNACK)]
        dead = False; got = 0
        if method != "M":
            w.until(lambda: c.connack or not c.open, 20, "answer")
            if c.connack is None or c.connack.rc != 0x8C: raise Violation("CONNACK %r for an unknown authentication method" % c.connack)
            dead = True
        for i, s in enumerate(steps):
            if dead: break
            if i:
                if fault == "method" and i == n: AU(c, 0x18, "M2", s); dead = True
                elif fault == "reauth" and i == n: AU(c, 0x19, "M", s); dead = True
                elif fault == "code" and i == n: AU(c, 0, "M", s); dead = True
                elif fault == "data" and i == n: c.send(packet(AUTH, 0, b"\x18" + props([("auth_data", s)]))); dead = True
                elif fault == "drop" and i == n: c.drop(); dead = True
                else: AU(c, 0x18, "M", s)
                if dead: break
            if s.endswith("more"):
                w.until(lambda: len(last()) > got or not c.open, 20, "AUTH"); got += 1
                if not c.open: raise Violation("connection closed instead of AUTH (%r)" % c.disc)
                a = last()[-1]
                if a.type != AUTH or a.rc != 0x18 or a.prop("auth_method") != "M" or a.prop("auth_data") != b"answer to " + s.encode(): raise Violation("%r instead of AUTH continue for %r" % (a, s))
                w.barrier([obs])
                if seen: raise Violation("effect before authentication finished: %r" % seen)
                ctx.eval(("continue", i, s))
        ok = False
        if not dead:
            w.until(lambda: c.connack or not c.open, 20, "CONNACK")
            base = final.split(":")[0].split("-")[-1]; want = CODES[base][0]
            if c.connack is None or c.connack.rc != want: raise Violation("%r for final verdict %s, expected 0x%02x" % (c.connack, final, want))
            ok = want == 0
            if ok and (c.connack.prop("auth_method") != "M" or c.connack.prop("auth_data") != b"answer to " + final.split(":")[0].encode()): raise Violation("CONNACK without the authentication data: %r" % c.connack)
        if not ok:
            if c.open: c.wait_closed()
            if c.connack is not None and c.connack.rc == 0: raise Violation("success although the exchange failed (%s)" % fault)
            tick3(w, b, threads); w.barrier([obs])
            if seen: raise Violation("effect of a connection that failed extended authentication: %r" % seen)
            ctx.eval(("failed", final, fault, method, n, bool(will)))
        else:
            user = final.split(":")[1] if ":" in final else (claimed or "")
            w.barrier([c]); e = []
            for t in ("a/x", "b/x"):
                p = u(); c.pub(t, p, 0)
                if not useacl or user == "admin" or (user == "alice" and t[0] == "a"): e.append(p)
            w.barrier([c], [obs])
            if early in seen and fault == "early" and (not useacl or user in ("alice", "admin")): e.append(early)
            if diff([x for x in e if x], seen): raise Violation("effects after extended authentication as %r: %s" % (user, diff([x for x in e if x], seen)))
            ctx.eval(("user", user, claimed, useacl, fault))
            seen.clear()
            re = r.choice([None, "good", "bad", "more", "throw"])
            if re:
                m = len(last()); AU(c, 0x19, "M", re)
                w.until(lambda: len(last()) > m or not c.open, 20, "answer to reauthentication")
                if re in ("good", "more"):
                    a = last()[-1]
                    if not c.open or a.type != AUTH or a.rc != (0 if re == "good" else 0x18): raise Violation("%r to reauthentication %s" % (a, re))
                    if re == "more":
                        AU(c, 0x18, "M", "good"); w.until(lambda: len(last()) > m + 1 or not c.open, 20, "answer to reauthentication")
                        if not c.open or last()[-1].type != AUTH or last()[-1].rc != 0: raise Violation("%r after reauthentication" % last()[-1])
                    w.barrier([c])
                    if not c.open: raise Violation("closed after successful reauthentication")
                else:
                    if c.open: c.wait_closed()
                    if c.disc is None or c.disc.rc not in (0x87, 0x80): raise Violation("refused reauthentication ended with %r" % c.disc)
                ctx.eval(("reauth", re))
            if c.open: c.drop()
            tick3(w, b, threads); b.advance(101); tick3(w, b, threads); w.barrier([obs])
            # the will belongs to the user the plugin gave
            mayw = will and (not useacl or user == "admin" or (user == "alice" and will["topic"][0] == "a"))
            if mayw: w.until(lambda: will["payload"] in seen, 20, "will after extended authentication")
            if seen != ([will["payload"]] if mayw else []):
                raise Violation("will on %r of user %r (claimed %r): published %r, expected %s" % (will and will["topic"], user, claimed, seen, bool(mayw)))
            if will: ctx.eval(("will", user, claimed, useacl, will["topic"]))
        seen.clear()
    # other misuse
    for ver, stream, what in [(5, auth(0x18, {"auth_method": "M", "auth_data": "good"}), "AUTH first"), (5, auth(0x19, {"auth_method": "M"}), "reauth first"),
                              (5, connect(5, "nomethod", pr=[("auth_data", "good")]), "data without method"), (5, connect(5, "no", user="U", pw="bad") + auth(0x18, {"auth_method": "M", "auth_data": "good"}), "AUTH after refusal"),
                              (5, connect(5, "no2", user="U", pw="never") + auth(0x18, {"auth_method": "M", "auth_data": "good"}), "AUTH without method while pending"),
                              (5, connect(5, "no4", user="U", pw="never") + auth(0x18, {"auth_method": "", "auth_data": "good"}), "AUTH with empty method while pending"),
                              (5, connect(5, "no3", user="U", pw="never") + packet(AUTH, 0, b""), "empty AUTH while pending"), (4, connect(4, "v4", user="U", pw="never") + packet(AUTH, 0, b"\x18\x00"), "AUTH in MQTT 3")]:
        c = Client(w, b, "m", ver); c.send_raw(stream + publish(ver, "a/m", "bad", 0)); w.until(lambda: not c.open, 10, "close after " + what)
        if c.connack is not None and c.connack.rc == 0: raise Violation("%s led to success" % what)
        ctx.eval(("misuse", what))
    w.barrier([obs])
    if seen: raise Violation("effect of a connection without authentication: %r" % seen)
    bad = [l for l in open(b.path("plug"), errors="replace") if '"BAD"' in l]
    if bad: raise Violation("plugin: " + bad[0])
    for c in list(w.clients): c.drop()

def tick3(w, b, threads):
    cs = []
    for i in range(threads + 1):
        c = Client(w, b, "tick%d" % i, 4); c.connect(user="tick", pw="good"); cs.append(c)
    w.barrier(cs); w.barrier(cs); n = b.fds()
    for c in cs: c.disconnect()
    w.until(lambda: b.fds() <= n - len(cs), 20, "tick connections to be removed")

def names(ctx, k):
    r = ctx.rng
    unsafec, unsafeu, zero = r.random() < 0.5, r.random() < 0.5, r.random() < 0.5
    tf = lambda x: "true" if x else "false"
    b = ctx.broker(threads=2, conf={"allow_unsafe_clientid_chars": tf(unsafec), "allow_unsafe_username_chars": tf(unsafeu), "zero_byte_username_is_anonymous": tf(zero)})
    w = ctx.world(b)
    un = Uniq("u")
    def go(ver, cid, user, clean, want, what):
        if cid is None: cid = un().decode()
        c = Client(w, b, cid, ver)
        c.connect(user=user, pw=r.choice([None, "x"]) if user is not None else None, clean=clean, expect=None)
        rc = c.connack.rc if c.connack else None
        if rc not in want: raise Violation("%s (v%d clean %s): CONNACK %r, expected %s" % (what, ver, clean, rc, want))
        if rc == 0:
            w.barrier([c])
            if not c.open: raise Violation("%s: closed" % what)
            if cid == "" and ver == 5 and not c.connack.prop("assigned_id"): raise Violation("no assigned client id")
            c.disconnect()
        else: c.wait_closed()
        ctx.eval((ver, cid, user, clean, unsafec, unsafeu, zero))
    for ver in (3, 4, 5):
        for clean in (True, False):
            idbad = {0x85} if ver == 5 else {2}
            ubad = {0x86} if ver == 5 else {4}
            for cid in ["+", "#", "a+b", "a/#", "x#", "+x"]: go(ver, cid, None, clean, {0} if unsafec else idbad, "client id %r" % cid)
            for cid in ["ok", "a/b", "$x", "é", "a b", "x" * 200, "%c", "null"]: go(ver, cid, None, clean, {0}, "client id %r" % cid)
            for us in ["+", "#", "a+b", "a/#", "x#", "+x"]: go(ver, None, us, clean, {0} if unsafeu else ubad, "username %r" % us)
            for us in ["ok", "a/b", "$x", "é", "%u"]: go(ver, None, us, clean, {0}, "username %r" % us)
            go(ver, None, "", clean, {0} if zero else ubad, "empty username")
            go(ver, "", None, clean, {0} if ver == 5 or (ver == 4 and clean) else idbad, "empty client id")
            for bad in (b"\xff\xfe", b"a\0b", b"\xc3", b"\xed\xa0\x80"):
                for f in ("cid", "user"):
                    c = Client(w, b, "x", ver)
                    c.send_raw(connect(ver, bad if f == "cid" else "u8%d" % r.randrange(10000), clean, 60, bad if f == "user" else None)); w.until(lambda: not c.open, 10, "close after invalid UTF-8 in " + f)
                    if c.connack is not None and c.connack.rc == 0: raise Violation("invalid UTF-8 %r accepted as %s" % (bad, f))
                    ctx.eval((ver, bad, f))
    for c in list(w.clients): c.drop()

def early(ctx, k):
    """Every packet type before CONNECT, unsupported versions, too much before CONNECT."""
    r = ctx.rng
    b = ctx.broker(threads=2, anonymous=True); w = ctx.world(b); u = Uniq("e")
    obs = Client(w, b, "obs", 5); obs.connect(); obs.sub(("#", 0)); seen = []; obs.on_publish = lambda p: seen.append((p.topic, bytes(p.payload)))
    def pk(ver, t):
        return {PUBLISH: lambda: publish(ver, "early", u(), r.randint(0, 2), r.random() < 0.5, 5), SUBSCRIBE: lambda: subscribe(ver, 3, [("#", 1)]), UNSUBSCRIBE: lambda: unsubscribe(ver, 3, ["#"]), PINGREQ: lambda: PING,
                DISCONNECT: lambda: disconnect(ver, 4 if ver == 5 else 0, [("session_expiry", 5)] if ver == 5 and r.random() < 0.5 else None), AUTH: lambda: auth(0x18, {"auth_method": "M"}), CONNACK: lambda: packet(CONNACK, 0, b"\0\0" + (b"\0" if ver == 5 else b"")),
                SUBACK: lambda: packet(SUBACK, 0, b"\0\1" + (b"\0" if ver == 5 else b"") + b"\0"), UNSUBACK: lambda: packet(UNSUBACK, 0, b"\0\1"), PINGRESP: lambda: packet(PINGRESP, 0, b"")}.get(t, lambda: ack(ver, t, 9))()
    for ver in (3, 4, 5):
        for t in range(2, 16):
            for follow in (False, True):
                c = Client(w, b, "e%d" % r.randrange(10000), ver); c.ping_sent = 10
                c.send_raw(pk(ver, t) + (connect(ver, c.cid) + PING if follow else b""))
                if follow:
                    w.until(lambda: c.connack or not c.open, 20, "connack")
                    if c.connack is not None: w.until(lambda: c.pongs or not c.open, 20, "pong")
                    if c.open and c.pongs != 1: raise Violation("%d PINGRESPs, one PINGREQ came after authentication (first packet %s)" % (c.pongs, NAMES[t]))
                    other = [p for p in c.inbox if p.type not in (CONNACK, PINGRESP, DISCONNECT)]
                    if other: raise Violation("answer to a packet before CONNECT: %r" % other)
                    ctx.count("dropped" if c.open else "ended")
                else:
                    w.settle(0.005)
                    if [p for p in c.inbox if p.type != DISCONNECT]: raise Violation("answer to %s before CONNECT: %r" % (NAMES[t], c.inbox))
                c.drop(); ctx.eval((ver, t, follow))
    # second CONNECT
    for ver in (3, 4, 5):
        c = Client(w, b, "second", ver); c.connect(); c.send(connect(ver, "other", will={"topic": "w2", "payload": "second will"})); w.until(lambda: not c.open, 10, "close after a second CONNECT"); ctx.eval(("second", ver))
        lv = r.choice([0, 1, 2, 3, 6, 7, 100, 127])
        x = Client(w, b, "unsup", 4 if lv < 5 else 5); x.send_raw(connect(4, "unsup", level=lv)); x.connected = True; w.until(lambda: not x.open, 10, "close after unsupported level")
        if x.connack and x.connack.rc == 0: raise Violation("unsupported protocol level accepted")
        x = Client(w, b, "unsup", 4); x.send_raw(connect(4, "unsup", proto=r.choice(["MQTx", "mqtt", "MQISDP", "MQIsdp"]))); w.until(lambda: not x.open, 10, "close after unknown protocol name"); ctx.eval(("proto", ver))
        if x.connack and x.connack.rc == 0: raise Violation("unknown protocol name accepted")
    # bounded
    for i in range(14):
        if i == 7: rss = b.rss_kb()      # the sanitizer's quarantine is full by then
        c = Client(w, b, "much", 4); n = 0
        while c.open and n < 3000: c.send_raw(publish(4, "early", b"x" * 10000, 0)); n += 1; w.pump()
        w.until(lambda: not c.open, 20, "close after %d packets before CONNECT" % n)
        c = Client(w, b, "big", 4); c.send_raw(bytes([0x30]) + varint(3000000) + b"\0\5early" + b"x" * 1000); w.until(lambda: not c.open, 20, "close after a packet of 3 MB before CONNECT"); ctx.eval(("bounded", 1))
    if b.rss_kb() > rss + 40000: raise Violation("memory grew by %d kB from unauthenticated connections" % (b.rss_kb() - rss))
    w.barrier([obs])
    if seen: raise Violation("effect before authentication: %r" % seen)
    for c in list(w.clients): c.drop()

def flood(ctx):
    """Packets behind a CONNECT whose verdict is pending: applied in order once, or refused beyond a bound, never early."""
    b = ctx.broker(threads=2, conf=dict(BIGQ, plugin=plugin(), plugin_opt_log="{dir}/plug")); w = ctx.world(b); u = Uniq("f")
    obs = Client(w, b, "obs", 5); obs.connect(); obs.sub(("#", 0)); seen = []; obs.on_publish = lambda p: seen.append(bytes(p.payload))
    for n in (1, 20, 60, 64, 70, 200, 3000):
        for verdict in ("async-150-good", "async-150-bad", "never", "delay-150-good"):
            c = Client(w, b, "f%d%s" % (n, verdict), 5); ps = [u() for _ in range(n)]
            c.send_raw(connect(5, c.cid, user="U", pw=verdict) + b"".join(publish(5, "f", p, 0) for p in ps))
            w.settle(0.02); w.barrier([obs])
            if seen and c.connack is None: raise Violation("effect before the verdict: %r" % seen[:3])
            if verdict == "never":
                if n >= 200: w.until(lambda: not c.open, 10, "close of a connection that floods while its verdict is pending")
                c.drop()
            else: w.until(lambda: c.connack or not c.open, 20, "verdict")
            if c.connack and c.connack.rc == 0:
                if "good" not in verdict: raise Violation("success for " + verdict)
                w.barrier([c], [obs])
                if c.open and seen != ps: raise Violation("packets behind a pending CONNECT: %d of %d took effect (or out of order)" % (len(seen), n))
            else:
                if n <= 60 and "good" in verdict: raise Violation("%d packets behind a pending CONNECT were not accepted" % n)
                w.barrier([obs])
                if seen: raise Violation("effect of a connection that was not authenticated: %r" % seen[:3])
            ctx.eval((n, verdict, bool(seen)), n=n); ctx.count("deferred_applied", len(seen)); seen.clear(); c.drop()
    b.advance(100); tick(w, b, 2)
    for c in list(w.clients): c.drop()

def ctx_tls(d, crt=None):
    t = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); t.load_verify_locations(d + "/ca.crt"); t.check_hostname = False
    if crt: t.load_cert_chain(*crt)
    return t

def cert(ctx):
    import tempfile
    acl = "user bob\ntopic readwrite bob/#\nuser admin\ntopic readwrite #\n"
    for authn in (False, True):
        conf = {"mosquitto_acl_file": "{dir}/acl", "plugin": plugin(), "plugin_opt_log": "{dir}/plug"}
        b = ctx.broker(start=False, threads=2, anonymous=False, files={"acl": acl}, conf=conf, listeners=[{"protocol": "mqtt"},
                       {"fullchain": "{dir}/srv.crt", "privkey": "{dir}/srv.key", "client_verification_ca_file": "{dir}/ca.crt", "client_verification_still_do_authn": "true" if authn else "false"},
                       {"fullchain": "{dir}/srv.crt", "privkey": "{dir}/srv.key"}])
        certs.ca(b.dir); certs.ca(b.dir, "evil", "Evil CA"); certs.cert(b.dir, "srv", "localhost")
        bob = certs.cert(b.dir, "bob", "bob"); evil = certs.cert(b.dir, "evilbob", "admin", by="evil"); nocn = certs.cert(b.dir, "nocn", "", subj="/O=x")
        try: old = certs.cert(b.dir, "oldbob", "bob", days=-1)
        except Exception: old = None
        b.start(); w = ctx.world(b); d = b.dir; port = b.ports["l1"]
        obs = Client(w, b, "obs", 5); obs.connect(user="admin", pw="good"); obs.sub(("#", 0)); seen = []; obs.on_publish = lambda p: seen.append((p.topic, bytes(p.payload)))
        def go(crt, user, pw, ok, what, ver=5):
            try:
                c = Client(w, b, "c-" + what.replace(" ", ""), ver, tls=ctx_tls(d, crt), port=port)
                c.connect(user=user, pw=pw, expect=None, will={"topic": "admin/w", "payload": "will"})
            except (ssl.SSLError, OSError, Timeout): c = None
            got = c is not None and c.connack is not None and c.connack.rc == 0
            if got != ok: raise Violation("%s: %s" % (what, "accepted" if got else "refused"))
            if got:
                c.pub("bob/x", what, 1); c.pub("admin/x", what, 1); w.barrier([c]); c.drop(); w.until(lambda: ("bob/x", what.encode()) in seen, 10, "message of bob"); tick3(w, b, 2); w.barrier([obs])
                if seen != [("bob/x", what.encode())]: raise Violation("%s: effects %r" % (what, seen))
                seen.clear()
            else:
                w.barrier([obs])
                if seen: raise Violation("%s: effect %r" % (what, seen))
            ctx.eval((authn, what, ver))
        for ver in (4, 5):
            go(bob, "bob", "good", True, "bob", ver)
            go(bob, "admin", "good", True, "bob claims to be admin", ver)
            go(bob, "bob", "bad", not authn, "bob with bad password", ver)
            go(bob, None, None, not authn, "bob without username", ver)
            go(evil, "admin", "good", False, "admin of another authority", ver)
            go(None, "admin", "good", False, "no certificate", ver)
            go(None, None, None, False, "no certificate nor name", ver)
            go(nocn, "admin", "good", False, "certificate without name", ver)
            if old: go(old, "bob", "good", False, "expired certificate", ver)
        # plain TLS listener: certificate does not matter
        c = Client(w, b, "plain", 5, tls=ctx_tls(d, bob), port=b.ports["l2"]); c.connect(expect=0x87); ctx.eval((authn, "plain"))
        for c in list(w.clients): c.drop()
        b.stop()

def tlv(t, v): return bytes([t]) + struct.pack(">H", len(v)) + v
def haproxy(ctx):
    acl = "user bob\ntopic readwrite bob/#\nuser admin\ntopic readwrite #\n"
    b = ctx.broker(threads=2, anonymous=False, files={"acl": acl}, conf={"mosquitto_acl_file": "{dir}/acl", "plugin": plugin(), "plugin_opt_log": "{dir}/plug"},
                   listeners=[{}, {"haproxy": "client_verification"}, {"haproxy": "client_verification_with_authn"}, {"haproxy": "on"}]); w = ctx.world(b)
    obs = Client(w, b, "obs", 5); obs.connect(user="admin", pw="good"); obs.sub(("#", 0)); seen = []; obs.on_publish = lambda p: seen.append((p.topic, bytes(p.payload)))
    def pssl(cn, verify=0, client=7, first=b""): return tlv(0x20, bytes([client]) + struct.pack(">I", verify) + first + tlv(0x21, b"TLSv1.3") + (tlv(0x22, cn) if cn is not None else b""))
    def go(lis, tl, user, pw, ok, what, eff="bob", local=False):
        c = Client(w, b, "h", 5, port=b.ports["l%d" % lis], proxy=proxy_v2(tlvs=tl, local=local))
        c.connect(user=user, pw=pw, expect=None, will={"topic": "admin/w", "payload": "will"})
        got = c.connack is not None and c.connack.rc == 0
        if got != ok: raise Violation("%s (listener %d): %s" % (what, lis, "accepted" if got else "refused"))
        if got:
            c.pub("bob/x", what, 1); c.pub("admin/x", what, 1); w.barrier([c]); c.drop(); exp = [("bob/x", what.encode())] + ([("admin/x", what.encode()), ("admin/w", b"will")] if eff == "admin" else [])
            w.until(lambda: len(seen) >= len(exp), 10, "effects of " + what); tick3(w, b, 2); w.barrier([obs])
            if diff(exp, seen): raise Violation("%s: effects %s" % (what, diff(exp, seen)))
            seen.clear()
        else:
            c.drop(); w.barrier([obs])
            if seen: raise Violation("%s: effect %r" % (what, seen))
        ctx.eval((lis, what))
    go(1, pssl(b"bob"), "bob", "good", True, "bob"); go(1, pssl(b"bob"), "admin", "bad", True, "bob as admin"); go(1, pssl(b"bob"), None, None, True, "bob without name")
    go(1, pssl(None), "admin", "good", False, "no CN"); go(1, b"", "admin", "good", False, "no TLV"); go(1, pssl(b""), "admin", "good", False, "empty CN"); go(1, pssl(b"\xff\xfe"), "admin", "good", False, "CN not UTF-8")
    go(1, tlv(4, b"\0" * 3), "admin", "good", False, "other TLV"); go(1, tlv(0x22, b"admin"), "admin", "good", False, "CN outside of SSL")
    for v in (1, 256, 0x10000, 0x1000000, 0xffffffff, 10): go(1, pssl(b"bob", verify=v), "bob", "good", False, "certificate that failed verification (%d)" % v)
    go(2, pssl(b"bob"), "admin", "good", True, "bob with authn"); go(2, pssl(b"bob"), "admin", "bad", False, "bob with authn refused"); go(2, b"", "admin", "good", False, "authn without CN")
    go(3, pssl(b"admin"), "bob", "good", True, "names are ignored"); go(3, pssl(b"admin"), "bob", "bad", False, "names do not help"); go(3, pssl(b"admin"), None, None, False, "names do not replace a username")
    go(3, b"", "admin", "good", True, "admin by password", eff="admin")
    for c in list(w.clients): c.drop()

def listener(ctx):
    """Per listener override of allow_anonymous."""
    for glob in (True, False):
        b = ctx.broker(threads=1, anonymous=glob, listeners=[{}, {"allow_anonymous": "true"}, {"allow_anonymous": "false"}, {"protocol": "websockets", "allow_anonymous": "false"}]); w = ctx.world(b)
        for i, ok in enumerate([glob, True, False, False]):
            for ver in (3, 4, 5):
                c = Client(w, b, "a", ver, port=b.ports["l%d" % i], ws=i == 3); c.connect(expect=0 if ok else 0x87 if ver == 5 else 5); ctx.eval((glob, i, ver))
                c.drop() if ok else c.wait_closed()
                c = Client(w, b, "a", ver, port=b.ports["l%d" % i], ws=i == 3); c.connect(user="someone", pw="x", expect=0 if ok else 0x87 if ver == 5 else 5); c.drop(); ctx.eval((glob, i, ver, "user"))
        for c in list(w.clients): c.drop()
        b.stop()
