from common import *
from p19 import rprops, norm
import p14, json, os, signal, time
from collections import Counter
RULE = ("A monitor plugin logs every call with its arguments, thread and order. Sequential random histories (logins, wills, subscriptions, shared ones, publishes, deliveries, retained and queued messages, unsubscribes, ends of every kind, verdicts, exceptions, alterations) are compared line by line with what the clients did and with what was delivered; "
        "concurrent soup with reloads, takeovers and kicks is judged by the temporal contract (allocate, init, calls, deinit, deallocate per thread, in its thread; one disconnect call per accepted login; one call per event) and API requests (publish, tasks, cancelled tasks, poll, subscriptions, kicks) by their effects, each once. Evaluation = one operation's calls compared, or one effect; distinct by operation, versions, verdict.")
BUDGET = {"quick": 420}
JOBS = 7
ASSUMPTIONS = ["Extra write checks with the original publisher's identity before retained messages are sent are allowed (the header doesn't mention them)."]
prebuild = p14.prebuild

def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    return [("asks-%d" % i, "asks", {"k": i}) for i in range(40 * n)] + [("api-%d" % i, "api", {"k": i}) for i in range(12 * n)] + [("churn-%d" % i, "churn", {"k": i}) for i in range(10 * n)] + [("life-%d" % i, "life", {"k": i}) for i in range(8 * n)]

class Log:
    def __init__(self, b): self.f = b.path("plug"); self.pos = 0; self.rest = b""
    def read(self):
        with open(self.f, "rb") as f: f.seek(self.pos); d = f.read()
        i = d.rfind(b"\n") + 1; self.pos += i
        out = [json.loads(l) for l in d[:i].splitlines()]
        for l in out:
            if l["fn"] == "BAD": raise Violation("contract broken: %s" % l)
        return out
L1 = lambda s: (s if isinstance(s, (bytes, bytearray)) else s.encode()).decode("latin-1")
ACC = {1: "read", 2: "write", 4: "subscribe", 100: "will"}
def canon(l):
    """A log line as a comparable tuple."""
    fn = l["fn"]; pr = tuple(tuple(x) for x in l["props"]) if l.get("props") else None
    if fn == "acl_check": return (ACC[l["access"]], l["clientid"], l["username"], l["topic"], tuple(l["subtopics"]), l["share"], l["payload"], l["qos"], l["retain"], l.get("corr"), l.get("resp"), l.get("ct"), pr)
    if fn == "alter_publish": return (fn, l["clientid"], l["topic"], tuple(l["subtopics"]), l["payload"], l["qos"], l["retain"], l.get("corr"), l.get("resp"), l.get("ct"), pr)
    if fn == "alter_subscription": return (fn, l["clientid"], l["topic"], tuple(l["subtopics"]), l["qos"], pr)
    if fn == "login_check": return (fn, l["clientid"], l["username"], l["password"], pr, l["client"])
    if fn == "client_disconnected": return (fn, l["clientid"])
    if fn == "on_unsubscribe": return (fn, l["clientid"], l["username"], l["topic"], tuple(l["subtopics"]), l["share"], pr, l["session"])
    return (fn,)
def uprops(pr): u = tuple((L1(v[0]), L1(v[1])) for k, v in pr if k in (38, "user")); return u or None
def field(pr, *ks):
    for k, v in pr:
        if k in ks: return L1(v)
class M:
    """A message as the plugin and the receivers must see it."""
    def __init__(self, topic, payload, qos, retain, pr, ver, cid, user): self.topic, self.payload, self.qos, self.retain, self.cid, self.user = topic, payload, qos, retain, cid, user; pr = pr if ver == 5 else []; self.pr = list(pr); self.corr = field(pr, 9, "correlation"); self.resp = field(pr, 8, "response_topic"); self.ct = field(pr, 3, "content_type"); self.up = uprops(pr); self.pf = any(k in (1, "payload_format") for k, _ in pr)
    def subt(self): return tuple(L1(x) for x in self.topic.split("/"))
    def alter_line(self): return ("alter_publish", self.cid, L1(self.topic), self.subt(), L1(self.payload), self.qos, int(self.retain), self.corr, self.resp, self.ct, self.up)
    def acl(self, acc, cid=None, user=None, qos=None, retain=None): return (acc, self.cid if cid is None else cid, L1(self.user if user is None else user), L1(self.topic), self.subt(), "", L1(self.payload), self.qos if qos is None else qos, int(self.retain if retain is None else retain), self.corr, self.resp, self.ct, self.up)
    def alter(self):
        t = self.topic; a = self.__class__.__new__(M); a.__dict__.update(self.__dict__)
        if "alter-topic" in t: a.topic = "altered/topic/" + self.cid
        if "alter-qosup" in t: a.qos = 2
        if "alter-qosdown" in t: a.qos = 0
        if "alter-retain" in t: a.retain = True
        if "alter-noretain" in t: a.retain = False
        if "alter-prop" in t:
            a.corr, a.resp, a.ct = "CORR", "resp/topic", "text/altered"
            if a.up: a.up += (("added", "by plugin"),)
        return a
    def verdict(self, acc, cid=""):
        t = self.topic; c = {"write": "w", "read": "r", "will": "l"}[acc]
        if any(x + c in t for x in ("deny-", "error-", "throw-")): return "no"
        if acc == "write" and "no-set-retained" in t: return "noret"
        if acc == "write" and "just-drop" in t: return "no"
        if acc == "read" and "not-for-" + cid in t: return "no"
        return "ok"
    def seen(self, qos, retain, ver): return (self.topic, bytes(self.payload), qos, bool(retain)) + ((self.corr, self.resp, self.ct, self.up) if ver == 5 else ())
def got(p, ver):
    pr = list(p.props.items()) if isinstance(p.props, dict) else list(p.props or [])
    return (p.topic, bytes(p.payload), p.qos, bool(p.retain)) + ((field(pr, 9, "correlation"), field(pr, 8, "response_topic"), field(pr, 3, "content_type"), uprops(pr)) if ver == 5 else ())

class Cl:
    def __init__(self, cid, ver, user): self.cid, self.ver, self.user = cid, ver, user; self.subs = {}; self.on = False; self.queue = []; self.will = None; self.c = None; self.exp = []; self.dur = False; self.may = []
    def best(self, topic):
        h = [(f, o) for f, o in self.subs.items() if match(f, topic)]
        assert len(h) <= 1, h
        return h[0][1] if h else None

MARKS = ["", "", "", "", "deny-r", "error-r", "throw-r", "deny-w", "error-w", "throw-w", "not-for-c1", "not-for-c2", "just-drop", "no-set-retained", "alter-topic", "alter-qosup", "alter-qosdown", "alter-retain", "alter-noretain", "alter-prop", "deny-l", "é"]

def asks(ctx, k):
    r = ctx.rng; th = r.choice([1, 2, 4]); b = ctx.broker(threads=th, storage=False, conf=dict(BIGQ, plugin=p14.plugin(), plugin_opt_log="{dir}/plug", plugin_serialize_auth_checks=r.choice(["true", "false"]), subscription_identifiers_enabled="true"))
    w = ctx.world(b); lg = Log(b); u = Uniq("%d-" % k); C = {}; retained = {}; may = []
    for i in range(1, 6): C["c%d" % i] = Cl("c%d" % i, r.choice([3, 4, 5, 5]), r.choice(["alice", "bob", "ü"]))
    def live(): return [x for x in C.values() if x.on]
    def deliver(m, exp, ending=None, ow=None):
        """What follows when m is accepted."""
        for x in C.values():
            o = x.best(m.topic)
            if o is None or (not x.on and not x.dur and x.cid != ending): continue
            if o["nl"] and x.cid == m.cid: continue
            if x.cid == ending: may.append(m.acl("read", x.cid, x.user, min(m.qos, o["qos"]), m.retain and o["rap"])); continue
            q = min(m.qos, o["qos"]); ret = m.retain and o["rap"]
            if ow is x and not q: may.append(m.acl("read", x.cid, x.user, q, ret)); x.may.append(m.seen(q, ret, x.ver)); continue    # its own will at QoS 0 while it's being taken over
            if not x.on and not q: may.append(m.acl("read", x.cid, x.user, q, ret)); continue
            exp.append(m.acl("read", x.cid, x.user, q, ret))
            if m.verdict("read", x.cid) != "ok": ctx.count("denied_reads"); continue
            if x.on: x.exp.append(m.seen(q, ret, x.ver))
            elif q: x.queue.append((m, q, ret))
        return exp
    def accept(m, exp, ending=None, own=None):
        exp.append(m.acl("write")); v = m.verdict("write")
        if v == "no": ctx.count("denied_writes"); return
        if m.retain and v == "ok":
            if m.payload: retained[m.topic] = m
            else: retained.pop(m.topic, None)
        deliver(m, exp, ending, own)
    def compare(what, exp, opt=()):
        """The plugin's calls since the last comparison are exactly exp (opt may also be there)."""
        want = Counter(exp); have = []; end = time.monotonic() + 10
        while True:
            cs = [x.c for x in live()]; w.barrier(cs); w.barrier(cs)
            have += [canon(l) for l in lg.read() if l["fn"] not in ("periodic", "init", "deinit", "allocate", "main_init") and not l.get("clientid", "").startswith("tick") and not l.get("topic", "").startswith("$SYS")]
            h = Counter(have); miss = want - h
            if not miss or time.monotonic() > end: break
            time.sleep(0.003)
        extra = [x for x in (h - want).elements() if x not in opt and x not in may]
        if miss or extra: raise Violation("%s: the plugin was not asked %s; it was asked without reason %s" % (what, [str(x)[:170] for x in miss][:2], [str(x)[:170] for x in extra][:2]))
        ctx.eval((what.split(" ")[0],) + tuple(sorted({(x[0],) for x in exp}))[:6] + (what.split("/")[0],)); ctx.count("calls_compared", len(have))
        for x in live():
            g = Counter(got(p, x.ver) for p in x.c.pubs); e = Counter(x.exp)
            for _ in range(200):
                if not e - g: break
                w.barrier([x.c]); w.pump(0.003); g = Counter(got(p, x.ver) for p in x.c.pubs)
            for y in x.may:
                if g[y] > e[y]: e[y] += 1
            if g != e: raise Violation("%s: %s (v%d) got %s, not %s" % (what, x.cid, x.ver, list(g - e)[:2], list(e - g)[:2]))
            ctx.count("deliveries_compared", len(x.exp)); x.c.pubs.clear(); x.exp.clear(); x.may.clear()
    def open_(x, clean=None):
        exp = []; clean = (r.random() < 0.3) if clean is None else clean; pr = [(38, ("ck", "cv"))] * (r.random() < 0.5) if x.ver == 5 else []
        will = None; x.will = None
        if r.random() < 0.5:
            t = "%s/%swill" % (r.choice("abc"), r.choice(["", "deny-l/", "deny-w/", "deny-r/", "no-set-retained/", "throw-l/", "throw-w/"])); wp = [(38, ("w", "1")), (9, b"wc")][:r.randint(0, 2)]
            m = M(t, u(b"will"), r.randint(0, 2), r.random() < 0.3, wp, x.ver, x.cid, x.user); will = dict(topic=t, payload=m.payload, qos=m.qos, retain=m.retain, props=wp if x.ver == 5 else None); exp.append(m.acl("will")); x.will = m if m.verdict("will") == "ok" else None
        full = list(pr) + ([("session_expiry", 100000)] if x.ver == 5 and not clean else [])
        x.c = Client(w, b, x.cid, x.ver, name=x.cid); took = x.on
        exp.append(("login_check", x.cid, L1(x.user), "good", uprops(pr) if x.ver == 5 else None, 1))
        if took:
            exp.append(("client_disconnected", x.cid)); ow = x.will_old
            if ow: accept(ow, exp, x.cid if clean or not x.dur else None, x)
        if clean or not x.dur: x.subs.clear(); x.queue.clear()
        x.dur = (not clean); x.on = True; x.will_old = x.will
        for m, q, ret in x.queue: exp.append(m.acl("read", x.cid, x.user, q, ret)); x.exp.append(m.seen(q, ret, x.ver))
        x.queue = []
        x.c.connect(clean=clean, user=x.user, pw="good", will=will, pr=full or None)
        return exp
    def shut(x, how):
        exp = [("client_disconnected", x.cid)]; n = b.fds()
        if how == "disconnect": x.c.disconnect()
        elif how == "error": x.c.send_raw(b"\xf0\x00" if x.ver == 5 else b"\x00\x00"); x.c.wait_closed()
        else: x.c.drop(rst=how == "rst")
        x.on = False
        if how != "disconnect" and x.will_old: accept(x.will_old, exp, x.cid if not x.dur else None)     # its own session may be gone already or not
        if not x.dur: x.subs.clear(); x.queue.clear()
        w.until(lambda: b.fds() < n, 20, "the broker to notice an end"); x.c = None
        return exp
    for step in range(120):
        x = r.choice(list(C.values())); op = r.choice(["pub"] * 10 + ["sub"] * 4 + ["unsub", "close", "close", "takeover", "refused"])
        if not x.on and op != "refused":
            if op in ("pub", "sub") and live() and r.random() < 0.75: x = r.choice(live())
            else: op = "open"
        ctx.step(step, op, x.cid)
        if op == "open": compare("open/%d" % x.ver, open_(x))
        elif op == "takeover":
            # pending messages of the old connection are delivered to the new one: none at this point
            e = open_(x); compare("takeover/%d" % x.ver, e)
        elif op == "refused":
            cid = r.choice(["c1", "c2", "stranger"]); ver = r.choice([4, 5]); v = r.choice(["bad", "throw", "err", "unavail"]); c = Client(w, b, cid, ver, name="refused"); c.connect(user="mallory", pw=v, expect=None, will=dict(topic="a/will", payload=b"w", qos=0, retain=False))
            # The will may be asked about before or not at all
            compare("refused/%s" % v, [("login_check", cid, "mallory", v, None, 1)], opt=[M("a/will", b"w", 0, False, [], ver, cid, "mallory").acl("will")])
        elif op == "close": how = r.choice(["disconnect", "drop", "rst", "error"]); compare("close/%s/%d" % (how, x.ver), shut(x, how))
        elif op == "sub":
            roots = [f for f in ("a/#", "b/#", "c/#", "altered/#", "resp/+") if f not in x.subs]; f = r.choice(roots) if roots else None
            if f is None: continue
            orig = f; mark = r.choice(["", "", "", "deny-s", "throw-s", "error-s", "no-retained", "alter-sub", "alter-qos", "just-drop", "share"]); pr = [(38, ("sk", "sv"))] if x.ver == 5 and r.random() < 0.4 else []
            sh = ""
            if mark == "share": sh = "g-" + x.cid; orig = "$share/%s/%s" % (sh, f)
            elif mark: orig = f = "%s/%s/#" % (r.choice("xyz"), mark)
            if f in x.subs: continue
            q = r.randint(0, 2); nl = x.ver == 5 and r.random() < 0.3 and not sh; rap = x.ver == 5 and r.random() < 0.5
            exp = [("alter_subscription", x.cid, L1(orig), tuple(orig.split("/")), q, uprops(pr))]; eff = f; eq = q
            if mark == "alter-sub": eff = "altered/" + x.cid
            if mark == "alter-qos": eq = 0
            if mark == "alter-sub" and any(match(g, "altered/" + x.cid) for g in x.subs): continue
            exp.append(("subscribe", x.cid, L1(x.user), L1(eff), tuple(eff.split("/")), sh, "", eq, 0, None, None, None, uprops(pr)))
            okd = not any(s in eff for s in ("deny-s", "throw-s", "error-s")); opt = []
            rc = x.c.sub((orig, q | (4 if nl else 0) | (8 if rap else 0)), pr=pr or None, check=False)
            rcs = list(getattr(rc, "rcs", None) or getattr(rc, "codes", None) or [])
            if rcs and x.ver >= 4 and (rcs[0] < 0x80) != okd: raise Violation("SUBACK %s for %s" % (rcs, orig))
            if okd and mark != "just-drop":
                x.subs[eff] = dict(qos=eq, nl=nl, rap=rap, orig=eff, share=sh)
                if not sh and mark != "no-retained":
                    for t, m in retained.items():
                        if match(eff, t):
                            qq = min(m.qos, eq); opt.append(m.acl("write"))
                            exp.append(m.acl("read", x.cid, x.user, qq, True))
                            if m.verdict("read", x.cid) == "ok": x.exp.append(m.seen(qq, True, x.ver))
            compare("sub/%s/%d" % (mark, x.ver), exp, opt)
        elif op == "unsub":
            if not x.subs: continue
            f = r.choice(sorted(x.subs)); o = x.subs.pop(f); full = ("$share/%s/" % o["share"] if o["share"] else "") + f; pr = [(38, ("uk", "uv"))] if x.ver == 5 and r.random() < 0.4 else []
            pid = x.c.pid(); x.c.send(unsubscribe(x.ver, pid, [full], pr=pr or None) if pr else unsubscribe(x.ver, pid, [full])); x.c.wait_ack(UNSUBACK, pid)
            compare("unsub/%s" % bool(o["share"]), [("on_unsubscribe", x.cid, L1(x.user), L1(f), tuple(f.split("/")), o["share"], uprops(pr), 1)])
        else:
            mark = r.choice(MARKS); pr = rprops(r) if x.ver == 5 else []
            t = "%s/%s" % (r.choice("abcxyz"), mark or r.choice("12")); m = M(t, u(b"p" * r.choice([0, 0, 4000])), r.randint(0, 2), r.random() < 0.3, pr, x.ver, x.cid, x.user)
            exp = [m.alter_line()]; a = m.alter(); accept(a, exp); x.c.pub(t, m.payload, m.qos, m.retain, pr=list(pr) or None)
            compare("pub/%s/%d/%d" % (mark, x.ver, m.qos), exp)
    b.stop()

def api(ctx, k):
    """Each request through the API takes effect once."""
    r = ctx.rng; th = r.choice([1, 2, 4]); b = ctx.broker(threads=th, noise=r.choice([0, 200]), conf=dict(BIGQ, plugin=p14.plugin(), plugin_opt_log="{dir}/plug")); w = ctx.world(b); lg = Log(b); u = Uniq("a%d-" % k)
    obs = Client(w, b, "obs", 5); obs.connect(user="o", pw="good", pr=[("receive_max", 65535)]); obs.sub(("#", 2 | 8)); cmds = [Client(w, b, "cmd%d" % i, r.choice([4, 5])) for i in range(3)]
    for c in cmds: c.connect(user="c", pw="good")
    T = {}
    def tgt(i):
        x = T.get(i)
        if x is None or not x.open: x = T[i] = Client(w, b, "tgt%d" % i, r.choice([4, 5]), name="tgt%d" % i); x.connect(clean=False, pr=[("session_expiry", 100000)] if x.ver == 5 else None); x.want = getattr(x, "want", [])
        return x
    exp = Counter(); never = []; polls = 0; tasks = 0; deadline = 0; retained = {}
    def do(path, payload): c = r.choice(cmds); c.pub("cmd/" + path, payload, r.choice([0, 1])); ctx.count("api_" + path.split("/")[0]); return c
    for step in range(60):
        what = r.choice(["publish", "publish", "full", "thread", "task", "task", "canceltask", "poll", "addsub", "kick", "kill", "addr"]); p = u(b"x" * r.choice([0, 10, 3000])); ctx.step(step, what)
        if what == "publish":
            q, ret, ex = r.randint(0, 2), r.randint(0, 1), r.choice([0, 0, 1000]); do("publish/%d/%d%s" % (q, ret, "/%d" % ex if ex else ""), p); exp[("out/%d" % q, bytes(p), q, bool(ret), None)] += 1
            if ret: retained["out/%d" % q] = bytes(p)
        elif what == "full": do("publish-full", p); exp[("out/full", bytes(p), 1, False, ("resp/t", b"corr", "ctype", (("k", "v"), ("k", "v2"))))] += 1
        elif what == "thread":
            do("publish-thread", p)
            for i in range(20): exp[("out/thread", bytes(p) + b"%d" % i, 1, False, None)] += 1
        elif what == "task": do("task/%d" % r.choice([0, 1, 30, 3000]), p); exp[("out/task", bytes(p), 1, False, None)] += 1
        elif what == "canceltask": do("canceltask/%d" % r.choice([0, 1, 3000]), p); never.append(bytes(p))
        elif what == "poll": do("poll", b"x"); exp[("out/poll", b"poll", 1, False, None)] += 1
        elif what == "addsub":
            x = tgt(step); t = "added/%d" % step; c = do("addsub/tgt%d" % step, t); w.barrier([c]); tick(w, b, th); obs.pub(t, p, 1); w.barrier([obs]); exp[(t, bytes(p), 1, False, None)] += 1
            w.until(lambda: [z for z in x.pubs if z.topic == t], 20, "message for the subscription a plugin added"); z = [z for z in x.pubs]
            if len(z) != 1 or (bytes(z[0].payload), z[0].qos) != (bytes(p), 1): raise Violation("subscription added by the plugin: got %s" % [(y.topic, y.qos) for y in z])
            if x.ver == 5 and 7 not in [v for kk, v in (z[0].props.items() if isinstance(z[0].props, dict) else z[0].props) if kk in (11, "sub_id")]: raise Violation("no subscription identifier on the plugin's subscription: %s" % (z[0].props,))
            x.pubs.clear(); c = do("delsub/tgt%d" % step, t); w.barrier([c]); tick(w, b, th); obs.pub(t, p, 1); exp[(t, bytes(p), 1, False, None)] += 1; w.barrier([obs]); w.barrier([x]); w.settle(0.003); w.barrier([x])
            if x.pubs: raise Violation("message for a subscription the plugin removed")
            x.disconnect()
        elif what in ("kick", "kill"):
            x = tgt(step); x.sub(("tt/%d" % step, 1)); code = r.choice([0x8B, 0x8E, 0x87, 0x98]); off = r.random() < 0.3; off and drop_and_wait(w, b, x, th); do("%s/tgt%d" % (what, step), str(code)); off or x.wait_closed(); w.barrier(cmds)
            if x.ver == 5 and getattr(x, "disc", None) and x.disc.rc != code: raise Violation("client disconnected with 0x%02x, plugin asked for 0x%02x" % (x.disc.rc, code))
            tick(w, b, th); y = Client(w, b, "tgt%d" % step, 4, name="tgt%d" % step); y.connect(clean=False); sp = y.connack.sp
            if bool(sp) != (what == "kick"): raise Violation("session present %s after the plugin's %s" % (sp, what))
            y.disconnect()
        elif what == "addr": do("addr", b"x")
        ctx.eval(("api", what, th, step % 20))
        if r.random() < 0.2: b.advance(r.choice([0.01, 1, 5])); tick(w, b, th)
    do("join", b"x"); w.barrier(cmds); b.advance(6); tick(w, b, th); b.advance(6); tick(w, b, th)
    def have():
        out = Counter()
        for z in obs.pubs:
            if z.topic.startswith("$") or z.topic.startswith("cmd"): continue
            pr = z.props.items() if isinstance(z.props, dict) else (z.props or []); d = {kk: v for kk, v in pr if kk not in (38, "user")}; us = tuple(v for kk, v in pr if kk in (38, "user"))
            f = None
            if z.topic == "out/full": f = (d.get("response_topic", d.get(8)), bytes(d.get("correlation", d.get(9, b""))), d.get("content_type", d.get(3)), us)
            out[(z.topic, bytes(z.payload), z.qos, bool(z.retain), f)] += 1
        return out
    for i in range(600):
        w.barrier([obs]); h = have()
        if not exp - h: break
        if i % 20 == 19: b.advance(2); tick(w, b, th)
        w.pump(0.003)
    w.settle(0.02); w.barrier([obs]); h = have()
    if h != exp: raise Violation("API: missing %s, unexpected %s" % ([str(x)[:150] for x in exp - h][:3], [str(x)[:150] for x in h - exp][:3]))
    if [z for z in obs.pubs if bytes(z.payload) in never]: raise Violation("cancelled task ran")
    for l in lg.read():
        if l["fn"] == "addr" and (l["text"] != "127.0.0.1" or l["family"] != 2): raise Violation("client's address: %s" % l)
        if l["fn"] == "poll" and l["p"] != 1: raise Violation("poll event with a wrong pointer: %s" % l)
    c = Client(w, b, "look", 4); c.connect(user="l", pw="good"); c.sub("out/#"); w.barrier([c]); w.settle(0.005); w.barrier([c]); rr = {z.topic: bytes(z.payload) for z in c.pubs if z.retain}
    if set(rr) != set(retained): raise Violation("retained by the plugin: %s, expected %s" % (sorted(rr), sorted(retained)))
    ctx.count("effects", sum(exp.values())); b.stop()

def contract(ctx, lines, threads, stopped=True):
    """The temporal contract over a whole log."""
    if lines[0]["fn"] != "main_init": raise Violation("first call is %s" % lines[0])
    if stopped and lines[-1]["fn"] != "main_deinit": raise Violation("last call is %s" % lines[-1])
    if sum(l["fn"] in ("main_init", "main_deinit") for l in lines) != 2: raise Violation("main_init/main_deinit not once each")
    by = {}
    for l in lines:
        if l["fn"] not in ("main_init", "main_deinit"): by.setdefault(l["tid"], []).append(l)
    n = 0
    for t, ls in by.items():
        st = "new"; n += any(l["fn"] == "allocate" for l in ls)
        for l in ls:
            f = l["fn"]
            if f == "allocate" and st == "new": st = "allocated"
            elif f == "init" and st in ("allocated", "down") and l["reloading"] == int(st == "down"): st = "up"
            elif f == "deinit" and st == "up": st = "down"; last = l
            elif f == "deallocate" and st == "down" and last["reloading"] == 0: st = "gone"
            elif f in ("addr", "task", "addsub", "ready") and st == "up": pass
            elif f in ("init", "deinit", "allocate", "deallocate") or st != "up": raise Violation("thread %s: %s in state %s" % (t, {a: l[a] for a in list(l)[:6]}, st))
        if stopped and st != "gone": raise Violation("thread %s left in state %s" % (t, st))
        ctx.count("thread_lifecycles")
    if n != threads: raise Violation("%d threads allocated plugin memory, %d configured" % (n, threads))
    ctx.count("lifecycle_calls", len(lines))

def churn(ctx, k):
    """One call of client_disconnected per accepted login, whatever ends the connection; under reloads."""
    r = ctx.rng; th = r.choice([1, 2, 4]); b = ctx.broker(threads=th, noise=r.choice([0, 300]), conf=dict(BIGQ, plugin=p14.plugin(), plugin_opt_log="{dir}/plug", plugin_timer_period=1, plugin_opt_opt="0")); w = ctx.world(b); lg = Log(b)
    sure = Counter(); amb = Counter(); con = Counter(); live = {}; lines = []; opts = ["0"]; kicker = Client(w, b, "kicker", 4); kicker.connect(user="k", pw="good"); sure["kicker"] += 1
    for step in range(250):
        cid = "x%d" % r.randint(0, 9); ver = r.choice([3, 4, 5]); op = r.choice(["open"] * 4 + ["refuse", "drop", "rst", "disconnect", "error", "kick", "fast", "async", "pipeline", "reload", "time"]); ctx.count("churn_" + op); ctx.step(step, op, cid)
        try:
            if op in ("open", "async"):
                c = Client(w, b, cid, ver, name=cid); c.connect(clean=r.random() < 0.5, user="u", pw="good" if op == "open" else r.choice(["async-5-good", "delay-5-good", "task-3-good"]), pr=[("session_expiry", 100)] if ver == 5 else None, wait=False); con[cid] += 1
                if op == "async": b.advance(0.02)
                for _ in range(3000):
                    if c.connack or not c.open: break
                    w.pump(0.01); op == "async" and b.advance(0.01)
                if c.connack and c.connack.rc == 0: sure[cid] += 1; live[cid] = c
                elif op == "async" or not c.open: amb[cid] += 1
                else: raise Violation("no answer to CONNECT")
            elif op == "refuse": c = Client(w, b, cid, ver, name=cid); c.connect(user="u", pw=r.choice(["bad", "throw", "async-3-bad"]), wait=False); (b.advance(0.01), w.settle(0.003))
            elif op == "fast":      # gone before the answer
                c = Client(w, b, cid, ver, name=cid); c.connect(user="u", pw=r.choice(["good", "async-3-good", "bad"]), wait=False); c.drop(rst=r.random() < 0.5); amb[cid] += 1
            elif op == "pipeline": c = Client(w, b, cid, ver, name=cid); c.open_socket() if hasattr(c, "open_socket") else None; c.send_raw(connect(ver, cid, True, 100, "u", "good", None, None) + disconnect(ver)); c.ping_sent = 0; amb[cid] += 1
            elif op == "reload":
                opts.append(str(step)); b.conf["plugin_opt_opt"] = str(step); b.write("flashmq.conf", b.conf_text()); b.hup(); time.sleep(r.choice([0, 0.02]))
            elif op == "time": b.advance(r.choice([0.5, 1.5, 3]))
            elif live:
                cid, c = r.choice(sorted(live.items())); del live[cid]
                if op == "drop": c.drop()
                elif op == "rst": c.drop(rst=True)
                elif op == "disconnect" and c.open: c.send(disconnect(c.ver))
                elif op == "error" and c.open: c.send_raw(b"\x00\x00")
                elif op == "kick": kicker.pub("cmd/kick/" + cid, "0", 1)
        except (ConnectionError, ConnectionAbortedError): amb[cid] += 1     # the listener was replaced by a reload
        if step % 40 == 39: lines += lg.read()
    for c in w.clients:
        if hasattr(c, "s") and c is not kicker: c.drop()
    time.sleep(0.02); b.advance(1)
    k2 = retry_connect(lambda: Client(w, b, "fin", 4).connect(user="u", pw="good")); tick(w, b, th); b.stop(); lines += lg.read()
    # Connections that are up at the end may or may not be reported while everything is torn down
    left = Counter(["kicker", "fin"]); dis = Counter(l["clientid"] for l in lines if l["fn"] == "client_disconnected"); dis = Counter({c: n for c, n in dis.items() if not c.startswith("tick")})
    for cid in set(sure) | set(dis):
        ctx.eval(("disconnected", cid, k))
        lo, hi = sure[cid] - left[cid], sure[cid] + amb[cid] + left[cid]
        if not lo <= dis[cid] <= hi: raise Violation("%s: client_disconnected %d times for %d..%d accepted logins" % (cid, dis[cid], lo, hi))
    ctx.count("disconnect_events", sum(dis.values())); ctx.count("reload_inits", sum(l["fn"] == "init" and l["reloading"] for l in lines)); ctx.count("periodic_calls", sum(l["fn"] == "periodic" for l in lines))
    contract(ctx, lines, th)
    for l in lines:
        if l["fn"] == "init" and l["opt"] not in opts: raise Violation("init with option %r" % l["opt"])
    if len(opts) > 1 and [l for l in lines if l["fn"] == "init"][-1]["opt"] != opts[-1]: raise Violation("the last init has option %r, configured %r" % ([l for l in lines if l["fn"] == "init"][-1]["opt"], opts[-1]))

def life(ctx, k):
    """Starts, stops, failing and deferred initialisation."""
    r = ctx.rng
    for rnd in range(3):
        th = r.choice([1, 2, 4, 8]); b = ctx.broker(threads=th, noise=r.choice([0, 300]), start=False, conf=dict(BIGQ, plugin=p14.plugin(), plugin_opt_log="{dir}/plug%d" % rnd, plugin_serialize_init=r.choice(["true", "false"]), plugin_timer_period=2)); mode = r.choice(["plain", "defer", "quick"]); ctx.step(rnd, mode, th)
        if mode == "defer": b.conf["plugin_opt_init"] = "defer"
        b.start() if mode != "defer" else b.start(); w = ctx.world(b); lg = Log(b); lg.f = b.path("plug%d" % rnd)
        if mode != "quick":
            cs = []
            for i in range(r.randint(1, 12)): c = Client(w, b, "l%d" % i, r.choice([4, 5])); c.connect(user="u", pw="good", will=dict(topic="w/%d" % i, payload=b"w", qos=0, retain=False)); c.sub("#"); cs.append(c)
            for c in cs: c.pub("t/%s" % c.cid if hasattr(c, "cid") else "t/x", b"p", 1)
            for i in range(r.randint(0, 4)):
                b.hup(); r.random() < 0.5 and time.sleep(0.01); b.advance(r.choice([0, 2.5]))
            if r.random() < 0.6: w.barrier([c for c in cs if c.open])
        b.stop(r.choice([signal.SIGTERM, signal.SIGINT])); lines = lg.read(); contract(ctx, lines, th); ctx.eval(("life", mode, th, sum(l["fn"] == "init" for l in lines)))
        if mode != "quick":
            wills = {l["topic"] for l in lines if l["fn"] == "acl_check" and l["access"] == 100}
            if wills != {"w/%d" % i for i in range(len(cs))}: raise Violation("wills the plugin was asked about: %s" % sorted(wills))
