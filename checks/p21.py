from common import *
from soup import *
import p14, signal, re
from lib import certs, build
VARIANTS = ["tsan"]
RULE = ("A ThreadSanitizer build runs mixed workloads that touch every pair of activities the threads share: connects, takeovers, publishes, retained updates and deferral, subscriptions, shared groups, wills, expiry and purges (simulated time), statistics, config and ACL/password reload, "
        "log reopening, state saving, plugin threads, bridges and shutdown in the middle of it all. Any race, lock inversion or hang is a violation. Evaluation = one broker run that was clean; distinct by its combination of activities.")
BUDGET = {"quick": 420}
JOBS = 4
def plugin(): return build.build_plugin(build.VERIF + "/plugins/monitor.cpp", "monitor-tsan", ("-fsanitize=thread",))
def prebuild():
    plugin()

FEATS = ["storage", "reload", "files", "plugin", "ws", "bridge", "signals", "purge", "small", "stats"]
def cases(tier, rng):
    n = 1 if tier == "quick" else 12
    return [("mix-%d" % i, "mix", {"k": i}) for i in range(24 * n)]

def reports(b):
    """Distinct ThreadSanitizer reports: (title, text)."""
    out = {}
    d = b.dir + "/san"
    for fn in sorted(os.listdir(d)):
        t = open(d + "/" + fn, errors="replace").read()
        for rep in re.split(r"={18,}\n", t):
            m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", rep)
            if not m: continue
            fns = re.findall(r"#\d+ (\S+?)\(?[^\n]*/([\w.]+\.(?:cpp|h)):(\d+)", rep)
            s = re.search(r"SUMMARY: ThreadSanitizer: ([^\n]*)", rep)
            out.setdefault(s.group(1)[-200:] if s else m.group(1), rep)
    return out

def mix(ctx, k):
    r = ctx.rng; on = {f for f in FEATS if r.random() < 0.5}; T = r.choice([2, 3, 4, 6]); ctx.step("features", sorted(on), "threads", T)
    conf = dict(expire_sessions_after_seconds=r.choice([0, 60]), max_packet_size=1000000)
    if "small" in on: conf.update(client_max_write_buffer_size=8192, max_qos_msg_pending_per_client=40, set_retained_message_defer_timeout=0)
    files = {}; listeners = [{"protocol": "mqtt", "name": "l0"}]; kinds = [{}]; extra = ""
    if "storage" in on: conf["save_state_interval"] = 300
    if "files" in on:
        files["acl"] = "topic readwrite #\nuser bob\ntopic readwrite t/#\n"; files["pw"] = ""; conf["mosquitto_acl_file"] = "{dir}/acl"; conf["mosquitto_password_file"] = "{dir}/pw"
    if "plugin" in on: conf.update(plugin=plugin(), plugin_opt_log="{dir}/plug")
    if "ws" in on: listeners.append({"protocol": "websockets", "name": "ws"})
    users = [("bob", "good"), ("bob", "async-3-good"), ("al", "delay-20-good"), ("x", "bad"), ("x", "async-1-bad"), (None, None), ("z", "task-5-good"), ("q", "throw")] if "plugin" in on else None
    b2 = None
    if "bridge" in on:
        b2 = ctx.broker(threads=2, variant="tsan", conf={}, name="remote")
        extra = "bridge {\n  clientid_prefix br\n  address %s\n  port %d\n  publish t/# 1\n  subscribe u/# 1\n  protocol_version mqtt5\n  %s\n}\n" % (r.choice(["127.0.0.1", "localhost"]), b2.port, r.choice(["connection_count 3", "", "keepalive 10"]))
    b = ctx.broker(threads=T, variant="tsan", conf=conf, files=files, storage="storage" in on, listeners=listeners, extra=extra, start=False, noise=r.choice([0, 100]))
    if "ws" in on: kinds.append({"ws": True, "port": b.ports["ws"]})
    b.set("dns_ms", r.choice([0, 0, 20, 3000]))
    b.start(); w = ctx.world(b); w2 = World(); s = Soup(ctx, w, b, n=r.choice([8, 14, 25]), kinds=kinds, users=users, cmd="plugin" in on)
    if r.random() < 0.3: b.slow(r.choice(["Subscription", "Session::", "Client::", "ThreadData", "Retained"]), 300, 50)
    adv = [0]
    def each(i):
        x = r.random()
        if x < 0.3: d = r.choice([2.1, 5.1, 10.1] if r.random() < 0.8 else [301, 2000] if "purge" not in on else [301, 2000, 4000]); b.advance(d); ctx.count("clock_jumps")
        elif x < 0.4 and "reload" in on: b.conf["max_qos_msg_pending_per_client"] = r.choice([40, 100]); b.conf["log_debug"] = r.choice(["true", "false"]); b.write("flashmq.conf", b.conf_text()); b.hup(); ctx.count("reloads")
        elif x < 0.5 and "files" in on: b.write("acl", "topic readwrite #\nuser bob\ntopic readwrite t/#\ntopic deny q%d\n" % i if False else "topic readwrite #\n# %d\n" % i); b.write("pw", "")
        elif x < 0.6 and "signals" in on: b.proc.send_signal(r.choice([signal.SIGUSR1, signal.SIGUSR2])); ctx.count("signals")
        elif x < 0.65 and b2 is not None:
            try: c = Client(w2, b2, "x%d" % i, 4); c.connect(wait=False); c.send(publish(4, "u/1", b"back", 1, False, 1)); w2.pump(0.05); c.drop()
            except OSError: pass
        time.sleep(0.002)
    s.run(1500 if not ctx.thorough else 6000, each); ctx.step("ops", dict(s.ops), "connected", len(s.cl))
    if b.proc.poll() is not None: raise Violation("broker ended by itself with status %s: %s" % (b.proc.poll(), b.tail()))
    if s.ops.get("publish", 0) < 50: raise RuntimeError("workload did not do anything: %s" % s.ops)
    # still alive on every thread
    if r.random() < 0.5:
        s.run(300); ctx.count("stops_under_load")
    else:
        s.close()
        def final(i): c = Client(w, b, "final%d" % i, 4); c.connect(user="u" if users else None, pw="good" if users else None); return c
        for i in range(2 * T): c = retry_connect(lambda: final(i)); c.send(packet(PINGREQ, 0, b"")); c.ping_sent += 1
        w.until(lambda: all(c.pongs for c in w.clients if c.name.startswith("final") and c.open), 60, "answers of all threads after the load")
    b.expected_dead = True; b.proc.send_signal(r.choice([signal.SIGTERM, signal.SIGINT]))
    for i in range(100): s.step(); w.pump(0)
    try: rc = b.proc.wait(90)
    except Exception: raise Violation("broker does not stop within 90 s (deadlock?): " + b.stacks())
    if b2 is not None: w2.close(); b2.expected_dead = True; b2.stop(check=False, timeout=90)
    for x in [b] + ([b2] if b2 else []):
        rep = reports(x)
        if os.environ.get("P21_DUMP"):
            for t in rep.values(): open("%s/%x" % (os.environ["P21_DUMP"], hash(t) & 0xffffffffff), "w").write(t)
            rep = {}
        if rep: raise Violation("%d ThreadSanitizer reports:\n%s" % (len(rep), "\n".join("* " + t for t in rep)) + "\n" + "\n".join(rep.values())[:20000])
    if not os.environ.get("P21_DUMP"): b.check_reports()
    if rc not in (0, 66): raise Violation("exit status %s: %s" % (rc, b.tail()))
    for f in FEATS: ctx.count("with_" + f, f in on)
    ctx.eval(tuple(sorted(on)) + (T,))
