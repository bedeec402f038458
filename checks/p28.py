from common import *
import ipaddress, itertools, socket, stat
RULE = ("Random allow and deny lists of IPv4 and IPv6 networks on several listeners are judged by connecting from many loopback addresses (Python's ipaddress is the reference); random filters on brokers with every "
        "wildcard depth and deny mode are judged by SUBACK code, live messages and retained delivery; random topic trees fill the retained node creation limit, whose stored topics must stay within it and use it up; "
        "every list of persistence_data_to_save is judged by what a restart brings back; unix socket modes by stat. Evaluation = one connection, subscription, topic, restart or socket; distinct by what was asked and the policy.")
BUDGET = {"quick": 420}

def cases(tier, rng):
    n = 1 if tier == "quick" else 8
    out = [("addr4-%d" % i, "addr", {"v6": 0}) for i in range(4 * n)] + [("addr6-%d" % i, "addr", {"v6": 1}) for i in range(2 * n)]
    out += [("depth-%d" % i, "depth", {"k": i}) for i in range(6 * n)]
    out += [("nodes-%d" % i, "nodes", {"k": i}) for i in range(6 * n)]
    out += [("save-%d" % i, "save", {"k": i}) for i in range(10 * n)]
    out += [("unix", "unix")]
    return out

def netlist(r, v6):
    def one():
        if v6: a = r.choice(["::1", "::", "::2", "::3", "8000::1", "::1:0:1", "::1:0:0:0:1", "0:0:0:1::1"]); return a + r.choice(["", "/%d" % r.choice([0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 97, 126, 127, 128])])
        a = "127.%d.%d.%d" % (r.choice([0, 0, 1, 2, 127, 128, 255]), r.choice([0, 1, 2, 3, 128, 255]), r.randrange(1, 255)); m = r.choice([None, 32, 31, 30, 29, 25, 24, 23, 17, 16, 15, 9, 8])
        if r.random() < .1: return r.choice(["0.0.0.0/0", "0.0.0.0/1", "128.0.0.0/1", "::1"])
        return a if m is None else "%s/%d" % (a, m)
    return [one() for _ in range(r.choice([0, 0, 1, 1, 2, 4]))]

def allowed(addr, allow, deny):
    a = ipaddress.ip_address(addr); hit = lambda l: any(a in ipaddress.ip_network(x, strict=False) for x in l)
    return not hit(deny) and (not allow or hit(allow))

def addr(ctx, v6):
    r = ctx.rng; N = 5
    pol = [(netlist(r, v6), netlist(r, v6)) for _ in range(N)]
    # the first listener is open; a second one without lists shows that the lists of one don't leak into others
    L = [{"name": "open"}] + [dict({"name": "l%d" % i}, **({"inet_protocol": "ip6", "inet6_bind_address": "::1"} if v6 else {"inet4_bind_address": "0.0.0.0"})) for i in range(N)]
    b = ctx.broker(start=False, threads=2, listeners=L, conf=BIGQ); w = ctx.world(b)
    def apply(pol):
        for l, (al, de) in zip(b.listeners[1:], pol):
            l.pop("only_allow_from", None); l.pop("deny_from", None)
            if al: l["only_allow_from"] = al
            if de: l["deny_from"] = de
    apply(pol); b.start()
    for rnd in range(4):
        tried = []
        for i, (al, de) in enumerate(pol):
            if v6: src = ["::1"]
            else:
                src = ["127.0.0.1"] + ["127.%d.%d.%d" % (r.choice([0, 1, 2, 127, 128, 255]), r.choice([0, 1, 2, 3, 128, 255]), r.randrange(1, 255)) for _ in range(5)]
                for x in al + de:      # edges of each network
                    if ":" in x: continue
                    n = ipaddress.ip_network(x, strict=False)
                    for e in (int(n[0]), int(n[-1]), int(n[0]) - 1, int(n[-1]) + 1):
                        if 0x7f000001 <= e < 0x7fffffff: src.append(str(ipaddress.ip_address(e)))
            for s in sorted(set(src)):
                k = socket.socket(socket.AF_INET6 if v6 else socket.AF_INET); k.settimeout(20); k.bind((s, 0)); k.connect(("::1" if v6 else "127.0.0.1", b.ports["l%d" % i]))
                try: k.sendall(connect(4, "", True, 600))
                except OSError: pass
                tried.append((k, s, al, de, i))
        def answer(k, t):
            k.settimeout(t)
            try: d = k.recv(4)
            except (socket.timeout, BlockingIOError): return None
            except OSError: return b""
            return d
        for k, s, al, de, i in tried:
            if not allowed(s, al, de): continue
            d = answer(k, 20)
            if d != b"\x20\x02\x00\x00": raise Violation("listener %d with only_allow_from %s deny_from %s: connection from %s got %s instead of its CONNACK" % (i, al, de, s, d))
            ctx.eval((s, tuple(al), tuple(de)))
        c = Client(w, b, "probe%d" % rnd, 4).connect(); w.settle(0.3); c.disconnect()
        for k, s, al, de, i in tried:
            if allowed(s, al, de): continue
            d = answer(k, 0.01)
            if d: raise Violation("listener %d with only_allow_from %s deny_from %s: connection from %s was answered %s" % (i, al, de, s, d.hex()))
            ctx.eval((s, tuple(al), tuple(de)))
        ctx.count("connections", len(tried)); ctx.count("refused", sum(not allowed(x[1], x[2], x[3]) for x in tried))
        for k, *_ in tried: k.close()
        if rnd == 3: break
        if rnd % 2 == 0:
            pol = [(netlist(r, v6), netlist(r, v6)) for _ in range(N)]; apply(pol); b.stop(); b.start()
    b.stop()

FIL = ["#", "+", "a/#", "a/+", "+/b", "a/b/#", "a/+/c", "a/b/+", "a/b/c/#", "a/b/c", "a", "a/b", "+/+/+/#", "/#", "//+", "/+", "a//#", "a/b/c/d/e/+/#"]
def depth(ctx, k):
    r = ctx.rng; D = [0, 1, 2, 3, 4, 6][k % 6]; b = ctx.broker(start=False, threads=2, conf=dict(BIGQ, minimum_wildcard_subscription_depth=D)); w = ctx.world(b)
    for mode in (None, "deny_all", "deny_retained_only"):
        b.conf.pop("wildcard_subscription_deny_mode", None)
        if mode: b.conf["wildcard_subscription_deny_mode"] = mode
        b.start(); p = Client(w, b, "p", 4).connect(); T = ["a", "a/b", "a/b/c", "/", "//x", "a//y", "a/b/c/d/e/f/g", "x", "x/b", "a/q/c"]
        for t in T: p.pub(t, "r" + t, qos=1, retain=True)
        for ver in (3, 4, 5):
            for f in r.sample(FIL, len(FIL)):
                share = ver > 3 and r.random() < .2; lv = f.split("/"); first = next((i for i, x in enumerate(lv) if x in "+#" and x), None); broad = first is not None and first < D
                deny = broad and mode != "deny_retained_only"; q = r.randrange(3); c = Client(w, b, "c", ver).connect(); a = c.sub((("$share/g/" if share else "") + f, q), check=False); w.settle(0.02); w.barrier([c])
                what = "MQTT %d, minimum depth %d, mode %s: %s%s" % (ver, D, mode, "shared " if share else "", f)
                code = a.codes[0]; want = (q if ver == 3 and not deny else q)
                if not deny and code != q: raise Violation("%s: SUBACK code %x for QoS %d" % (what, code, q))
                if deny and ver > 3 and code < 0x80: raise Violation("%s: granted with code %x" % (what, code))
                got = sorted(x.topic for x in c.pubs if x.retain); exp = [] if (broad or share) else sorted(t for t in T if topic_matches(f, t))
                if got != exp:
                    w.until(lambda: sorted(x.topic for x in c.pubs if x.retain) == exp, 20, "%s: retained messages for %s, expected %s" % (what, got, exp))
                c.pubs.clear()
                for t in T: p.pub(t, "live", qos=1)
                w.settle(0.02); w.barrier([c]); exp = [] if deny else sorted(t for t in T if topic_matches(f, t)); live = lambda: sorted(x.topic for x in c.pubs if not x.retain)
                if live() != exp: w.until(lambda: live() == exp, 20, "%s: live messages on %s, expected %s" % (what, live(), exp))
                if any(x.retain for x in c.pubs): raise Violation("%s: late retained messages" % what)
                ctx.eval((D, mode, ver, f, share)); c.disconnect(); ctx.count("subscriptions"); ctx.count("broad", int(broad))
        b.stop()

def topic_matches(f, t):
    F, T = f.split("/"), t.split("/")
    for i, x in enumerate(F):
        if x == "#": return True
        if i >= len(T) or (x != "+" and x != T[i]): return False
    return len(F) == len(T)

def nodes(ctx, k):
    r = ctx.rng; mode = ["reject", "reject", None, "log"][k % 4]; dep = [0, 1, 0, 2, 1, 0][k % 6]; lim = r.choice([1, 3, 10, 40])
    conf = dict(BIGQ, retained_messages_node_creation_limit=lim, retained_messages_node_creation_limit_enforcement_depth=dep, set_retained_message_defer_timeout=0)
    if mode: conf["retained_messages_node_creation_limit_enforcement_mode"] = mode
    b = ctx.broker(threads=2, conf=conf); w = ctx.world(b); live = Client(w, b, "live", 5).connect(); live.sub(("#", 1)); p = Client(w, b, "p", 5).connect()
    seen = set(); ub = {}; full = set(); stored = []; must = set()
    for i in range(120):
        t = "/".join(r.choice(["d%d" % r.randrange(3), "x%d" % r.randrange(40), "y"]) for _ in range(r.choice([1, 2, 2, 3, 3, 4, 6])))
        if t in seen: continue
        seen.add(t); lv = t.split("/"); pre = ["/".join(lv[:j]) for j in range(1, len(lv) + 1)]
        p.pub(t, "p%d" % i, qos=1, retain=True)
        # every enforcement node (a prefix of dep levels) can have at most lim nodes below it
        if mode == "log" or len(lv) <= dep: must.add(t); continue
        e = "/".join(lv[:dep]); u = ub.setdefault(e, set()); new = [x for x in pre[dep:] if x not in u]
        if e not in full and len(u) + len(new) < lim + (1 if new else 0) and new: must.add(t); u.update(new)
        elif new: full.add(e); u.update(new)
    w.barrier([live]); lt = {x.topic for x in live.pubs}
    if not seen <= lt: raise Violation("live messages %s not delivered with a retained node limit" % sorted(seen - lt)[:4])
    c = Client(w, b, "o", 5).connect(); c.sub(("#", 0)); w.until(lambda: must <= {x.topic for x in c.pubs}, 20, lambda: "retained messages within the limit %d at depth %d (%s) stored: missing %s" % (lim, dep, mode, sorted(must - {x.topic for x in c.pubs})[:5])); w.settle(0.1); w.barrier([c]); st = {x.topic for x in c.pubs}
    below = {}
    for t in st:
        lv = t.split("/")
        for j in range(dep + 1, len(lv) + 1): below.setdefault("/".join(lv[:dep]), set()).add("/".join(lv[:j]))
    if mode != "log":
        for e, s in below.items():
            if len(s) > lim: raise Violation("%d nodes stored below '%s' with limit %d at depth %d" % (len(s), e, lim, dep))
    elif st != seen: raise Violation("only logging the limit, but %d of %d retained messages are stored" % (len(st), len(seen)))
    for t in seen: ctx.eval((t, t in st, lim, dep, mode))
    ctx.count("topics", len(seen)); ctx.count("stored", len(st))

def save(ctx, k):
    r = ctx.rng; A = ["all", "sessions_and_subscriptions", "retained_messages", "bridge_info"]
    fixed = [None, ["all"], ["!all"], ["sessions_and_subscriptions"], ["retained_messages"], ["all", "!retained_messages"], ["all", "!sessions_and_subscriptions"], ["!retained_messages", "all"]]
    v = fixed[k] if k < len(fixed) else [r.choice(["", "!"]) + r.choice(A) for _ in range(r.randrange(1, 6))]
    on = set(A[1:]) if v is None else set()
    for x in v or []:
        s = set(A[1:]) if x.strip("!") == "all" else {x.strip("!")}; on = on - s if x[0] == "!" else on | s
    conf = dict(BIGQ)
    if v is not None: conf["persistence_data_to_save"] = " ".join(v)
    b = ctx.broker(threads=2, storage=True, conf=conf); w = ctx.world(b); ss, rt = "sessions_and_subscriptions" in on, "retained_messages" in on
    for rnd in range(3):
        s = Client(w, b, "s%d" % rnd, 4).connect(clean=False); s.sub(("q/#", 1)); s.disconnect(); p = Client(w, b, "p", 4).connect(); p.pub("q/%d" % rnd, "x", qos=1); p.pub("r/%d" % rnd, "y", qos=1, retain=True); p.disconnect(); b.stop(); b.start()
        c = Client(w, b, "s%d" % rnd, 4).connect(clean=False); sp = c.connack.sp; w.settle(0.05); w.barrier([c])
        if bool(sp) != ss: raise Violation("persistence_data_to_save %s: session present %s after a restart" % (v, sp))
        if ss: w.until(lambda: "q/%d" % rnd in [x.topic for x in c.pubs], 20, "persistence_data_to_save %s: queued message after a restart" % v)
        c.disconnect(); o = Client(w, b, "o", 4).connect(); o.sub(("r/#", 0)); w.settle(0.05); w.barrier([o]); exp = ["r/%d" % i for i in range(rnd + 1)] if rt else []
        if sorted(x.topic for x in o.pubs) != exp: w.until(lambda: sorted(x.topic for x in o.pubs) == exp, 10, "persistence_data_to_save %s: retained %s after a restart, expected %s" % (v, [x.topic for x in o.pubs], exp))
        o.disconnect(); ctx.eval((tuple(v or ()), rnd, sp))
    b.stop()

def unix(ctx):
    for mode in ("600", "660", "666", "700", "777", "640", "620"):
        b = ctx.broker(threads=1, listeners=[{"name": "t"}, {"inet_protocol": "unix", "unix_socket_path": "{dir}/sock", "unix_socket_mode": mode}], conf=BIGQ); w = ctx.world(b)
        for rnd in range(2):
            m = stat.S_IMODE(os.stat(b.dir + "/sock").st_mode)
            if m != int(mode, 8): raise Violation("unix_socket_mode %s gave a socket of mode %o" % (mode, m))
            c = Client(w, b, "c", 4, unix=b.dir + "/sock").connect(); c.disconnect(); ctx.eval((mode, rnd)); b.stop()
            if rnd == 0: b.start()
