from common import *
RULE = ("Share groups of several names and filters (overlapping with each other and with ordinary subscriptions) whose members join, leave by UNSUBSCRIBE, disconnect with and without a session, resume, are taken over and expire; publishes with all QoS levels, "
        "with each distribution mode. A reference model of the membership decides per message and group that exactly one current member got it with its own QoS, subscription identifier and retain flag. Concurrent publishers with changing membership are judged by conservation "
        "(each message once per group). Evaluation = one message in one group; distinct by (mode, number of members, offline members, holes, QoS).")
BUDGET = {"quick": 420}
MODES = ["round_robin", "sender_hash", "first"]

def cases(tier, rng):
    n = 1 if tier == "quick" else 8
    out = [("seq-%d" % i, "seq", {"k": i}) for i in range(12 * n)]
    out += [("churn-%d" % i, "churn", {"k": i}) for i in range(9 * n)]
    out += [("share-%d" % i, "fair", {"k": i}) for i in range(6 * n)]
    out += [("holes-%d" % i, "holes", {"k": i}) for i in range(6 * n)]
    out += [("resume-%d" % i, "resume", {"k": i}) for i in range(3 * n)]
    return out

FILTERS = ["s/a", "s/+", "s/#", "+/a", "s/a/b", "#", "s//x", "s/+/b"]
TOPICS = ["s/a", "s/b", "s/a/b", "s", "t/a", "s//x", "s/q/b", "t/t"]

def seq(ctx, k):
    """Model in lockstep."""
    r = ctx.rng; mode = MODES[k % 3]; T = r.choice([1, 2, 4]); b = ctx.broker(threads=T, conf=dict(BIGQ, shared_subscription_targeting=mode, expire_sessions_after_seconds=100000), noise=r.choice([0, 300])); w = ctx.world(b)
    P = [Client(w, b, "pub%d" % i, r.choice([3, 4, 5])).connect() for i in range(3)]; u = Uniq("s")
    S = {}      # cid -> dict(c or None, ver, subs {filter: (qos, id, rap)}, seen)
    nxt = 0
    def newmember():
        nonlocal nxt
        nxt += 1; cid = "m%d" % nxt; ver = r.choice([3, 4, 5]); s = {"ver": ver, "subs": {}, "got": [], "c": None, "persist": r.random() < 0.5}; S[cid] = s; up(cid); return cid
    def up(cid, clean=None):
        s = S[cid]; c = Client(w, b, cid, s["ver"]); s["c"] = c
        c.on_publish = lambda p: s["got"].append(p)
        c.connect(clean=(s["ver"] != 5 and not s["persist"]) if clean is None else clean, pr={"session_expiry": 90000 if s["persist"] else 0} if s["ver"] == 5 else None)
        w.barrier([c]); w.barrier([c])
    for i in range(r.randint(3, 7)): newmember()
    log = ctx.step; owed = {}; hist = {}       # (group, filter, sender, membership) -> member, for sender_hash
    def expected(topic):
        """-> {(group, filter): {cid: sub}}, {cid: [(filter, sub)]}"""
        g = {}; o = {}
        for cid, s in S.items():
            for f, sub in s["subs"].items():
                gr, ff = share(f)
                if not match(ff, topic): continue
                if gr is not None: g.setdefault((gr, ff), {})[cid] = sub
                else: o.setdefault(cid, []).append((f, sub))
        return g, o
    for rd in range(130):
        op = r.random(); live = [c for c, s in S.items() if s["c"]]
        if op < 0.16 and live:
            cid = r.choice(live); s = S[cid]; fs = []
            for _ in range(r.randint(1, 3)):
                f = r.choice(FILTERS); fs.append((f if r.random() < 0.2 else "$share/%s/%s" % (r.choice(["g", "h", "g/x"[:1] + "2"]), f), r.randint(0, 2)))
            sid = r.choice([None, None, r.randint(1, 268435455)]) if s["ver"] == 5 else None; rap = s["ver"] == 5 and r.random() < 0.4
            s["c"].sub(*[(f, q | (8 if rap else 0)) for f, q in fs], pr={"sub_id": sid} if sid else None)
            for f, q in fs: s["subs"][f] = (q, sid, rap)
            log(cid, "sub", fs, sid)
        elif op < 0.26 and live:
            cid = r.choice(live); s = S[cid]; fs = r.sample(list(s["subs"]), min(len(s["subs"]), r.randint(1, 2))) or ["$share/g/none"]
            s["c"].unsub(*fs); [s["subs"].pop(f, None) for f in fs]; log(cid, "unsub", fs)
        elif op < 0.34 and live and len(live) > 1:
            cid = r.choice(live); s = S[cid]; w.barrier([s["c"]]); w.barrier([s["c"]]); log(cid, "leaves")
            drop_and_wait(w, b, s["c"], T, r.choice(["drop", "rst"]) if r.random() < .5 else lambda c: c.disconnect())
            s["c"] = None
            if not s["persist"]: del S[cid]
        elif op < 0.40:
            off = [c for c, s in S.items() if not s["c"]]
            if off: cid = r.choice(off); log(cid, "resumes"); up(cid)
            elif live and len(S) < 9:
                cid = r.choice(live); old = S[cid]["c"]; log(cid, "taken over"); w.barrier([old]); w.barrier([old]); up(cid); w.until(lambda: not old.open, 30, "close of taken over")
                if not S[cid]["persist"]: S[cid]["subs"] = {}
                tick(w, b, T)
        elif op < 0.43 and len(S) < 9: log(newmember(), "joins")
        elif op < 0.45: log("purge"); elapse(w, b, 4000, T, 1900); hist.clear()
        elif op < 0.47:
            off = [c for c, s in S.items() if not s["c"]]
            for cid in off: up(cid, clean=True); S[cid]["subs"] = {}; S[cid]["persist"] = S[cid]["ver"] == 5; S[cid]["got"] = []; log(cid, "clean start")
        # publish a batch
        msgs = []
        cur = tuple(sorted((c, f) for c, s in S.items() for f in s["subs"]))
        for _ in range(r.randint(1, 8)):
            p = r.choice(P); t = r.choice(TOPICS); q = r.randint(0, 2); pay = u(); g, o = expected(t); msgs.append((p, t, q, pay, g, o))
            ret = r.random() < 0.1; p.pub(t, pay, q, retain=ret); msgs[-1] += (ret,)
            if ret: p.pub(t, b"", 0, retain=True); w.barrier([p])
        w.barrier(P, [s["c"] for s in S.values() if s["c"]]); w.barrier([s["c"] for s in S.values() if s["c"]])
        for p, t, q, pay, g, o, ret in msgs:
            got = {cid: [x for x in s["got"] if bytes(x.payload) == pay] for cid, s in S.items()}
            # which copies belong to ordinary subscriptions
            copies = []
            for cid, xs in got.items():
                for x in xs: copies.append([cid, x.qos, x.prop("sub_id"), x.retain, x.topic])
            def take(cid, sub):
                e = [cid, min(q, sub[0]), sub[1], bool(ret and sub[2]), t]
                if e in copies: copies.remove(e); return True
                return False
            for cid, subs in o.items():
                for f, sub in subs:
                    if S[cid]["c"] and not take(cid, sub): raise Violation("%s did not get %r on %s for its ordinary subscription %s" % (cid, pay, t, f))
            # assignment of the remaining copies to groups (small backtracking)
            groups = list(g.items())
            def assign(i, left):
                if i == len(groups): return not left or None
                opts = []
                for cid, sub in groups[i][1].items():
                    e = [cid, min(q, sub[0]), sub[1], bool(ret and sub[2]), t]
                    if S[cid]["c"] and e in left:
                        l2 = list(left); l2.remove(e); x = assign(i + 1, l2)
                        if x is not None: return ([(groups[i][0], cid)] + (x if isinstance(x, list) else []))
                if any(not S[cid]["c"] for cid in groups[i][1]):
                    x = assign(i + 1, left)
                    if x is not None: return [(groups[i][0], None)] + (x if isinstance(x, list) else [])
                return None
            a = assign(0, copies) if groups or copies else []
            if a is None: raise Violation("message %r on %s (QoS %d): copies %s cannot come from one member of each group; groups %s" % (pay, t, q, [x[:4] for x in copies], [(n, {c: (s[0], "on" if S[c]["c"] else "off") for c, s in m.items()}) for n, m in groups]))
            for (n, m) in groups:
                ctx.eval((mode, len(m), sum(not S[c]["c"] for c in m), q)); ctx.count("shared_messages")
            if mode != "round_robin" and isinstance(a, list) and len(groups) == 1 and len(copies) <= 1:
                (gn, who) = a[0]; key = (gn, p.cid if mode == "sender_hash" else "", cur, tuple(sorted(c for c, s in S.items() if s["c"])))
                h = hist.setdefault(key, who)
                if h != who: raise Violation("%s: messages of %s in group %s went to %s and to %s with the same membership" % (mode, p.cid, gn, h, who))
                ctx.eval(("stable", mode, len(g)))
            for cid in S: S[cid]["got"] = [x for x in S[cid]["got"] if bytes(x.payload) != pay]
            # what an offline member may get when it returns
            for cid, s in S.items():
                if not s["c"] and q: 
                    n = sum(min(q, sub[0]) > 0 for d in [g[x] for x in g] for c2, sub in d.items() if c2 == cid) + sum(min(q, sub[0]) > 0 for f, sub in o.get(cid, []))
                    if n: owed[(cid, pay)] = n
        for cid, s in S.items():
            for x in s["got"]:
                pay = bytes(x.payload)
                if pay == b"": continue
                if owed.get((cid, pay), 0) < 1: raise Violation("%s got %r, which nobody owed it" % (cid, x))
                owed[(cid, pay)] -= 1; ctx.count("late_copies")
            s["got"] = []
    ctx.sample({"mode": mode, "sessions": {c: list(s["subs"].items())[:3] for c, s in list(S.items())[:3]}})

def fair(ctx, k):
    """Round robin shares among stable connected members (with holes after leavers), sender_hash and first are stable and fail over."""
    r = ctx.rng; mode = MODES[k % 3]; T = r.choice([1, 3]); b = ctx.broker(threads=T, conf=dict(BIGQ, shared_subscription_targeting=mode)); w = ctx.world(b)
    P = [Client(w, b, "sender-%d" % i, r.choice([4, 5])).connect() for i in range(8)]; u = Uniq("f"); M = []
    def join():
        c = Client(w, b, "fm%d" % len(allm), r.choice([3, 4, 5])).connect(); c.sub(("$share/grp/f/+", r.randint(0, 2))); M.append(c); allm.append(c)
    allm = []
    for _ in range(r.randint(2, 6)): join()
    for rd in range(40):
        n0 = {c: len(c.pubs) for c in M}; who = {}
        if mode == "round_robin":
            N = 12 * len(M); p = r.choice(P)
            for i in range(N): p.pub("f/%d" % (i % 3), u(), r.randint(0, 2), wait=True)
            w.barrier([p], M); got = {c: len(c.pubs) - n0[c] for c in M}
            if sum(got.values()) != N: raise Violation("%d messages to %d members: %d arrived" % (N, len(M), sum(got.values())))
            low = [c.cid for c in M if got[c] < 1]
            if low: raise Violation("round robin: members %s got nothing of %d messages (%s)" % (low, N, sorted(got.values())))
            if not holes_seen(ctx, rd) and max(got.values()) - min(got.values()) > 1: raise Violation("round robin without leavers: uneven %s" % sorted(got.values()))
        else:
            for p in P:
                for i in range(5): p.pub("f/%d" % i, p.cid.encode() + b"|" + u(), r.randint(0, 2))
            w.barrier(P, M)
            for c in M:
                for x in c.pubs[n0[c]:]: who.setdefault(bytes(x.payload).split(b"|")[0], []).append(c.cid)
            for p, l in who.items():
                if len(l) != 5: raise Violation("%d of 5 messages of %r arrived" % (len(l), p))
                if len(set(l)) != 1: raise Violation("%s: messages of one sender went to %s" % (mode, l))
            if len(who) != len(P): raise Violation("messages of %d of %d senders arrived" % (len(who), len(P)))
            if mode == "first" and len({l[0] for l in who.values()}) != 1: raise Violation("first: %s" % who)
        ctx.eval((mode, len(M), rd > 8)); ctx.count("rounds")
        if rd >= 8:      # membership changes
            if len(M) > 1 and r.random() < 0.6:
                c = M.pop(r.randrange(len(M)))
                if r.random() < 0.5: c.unsub("$share/grp/f/+")
                else: drop_and_wait(w, b, c, T)
            if len(M) < 3 or r.random() < 0.5: join()
def holes_seen(ctx, rd): return rd > 8

def churn(ctx, k):
    """Concurrent publishers while members come and go by UNSUBSCRIBE/SUBSCRIBE, one stable member per group stays: every message arrives exactly once per group."""
    r = ctx.rng; mode = MODES[k % 3]; T = 4; b = ctx.broker(threads=T, conf=dict(BIGQ, shared_subscription_targeting=mode), noise=300); w = ctx.world(b)
    if k % 2: b.slow(["SharedSubscribers", "addSubscriber|removeSubscriber", "publishNonRecursively"][k // 2 % 3], 400, 6)
    P = [Client(w, b, "p%d" % i, 5).connect() for i in range(5)]; M = [Client(w, b, "m%d" % i, r.choice([4, 5])).connect(pr={"receive_max": 65535}) for i in range(8)]; u = Uniq("c")
    G = ["$share/a/x/+", "$share/b/x/#", "$share/a/x/1", "$share/c/+/+"]; on = {}
    O = Client(w, b, "ordinary", 5).connect(); O.sub(("x/#", 2))
    for i, g in enumerate(G): M[i].sub((g, 2)); on[(i, g)] = True      # stable members
    sent = {}
    for rd in range(60):
        for _ in range(25):
            p = r.choice(P); t = "x/%d" % r.randint(0, 2); pay = u(); q = r.randint(0, 2); p.pub(t, pay, q, wait=False); sent[pay] = t
            if r.random() < 0.5:
                i = r.randrange(8); g = r.choice(G)
                if (i, g) in on and on[(i, g)] is True: continue
                if (i, g) in on: M[i].unsub(g, wait=False); del on[(i, g)]
                else: M[i].sub((g, 2), wait=False); on[(i, g)] = 1
        w.pump(0.002)
        if rd % 6 == 5:
            if rd % 12 == 11: b.advance(1900); tick(w, b, T)
            w.until(lambda: all(not c.outbuf for c in P + M), 30, "sending")
            for _ in range(3): w.barrier(P); w.barrier(M + [O])
            w.until(lambda: all(c.pid for c in P), 1)
            from collections import Counter
            tot = Counter()
            for c in M:
                for x in c.pubs: tot[bytes(x.payload)] += 1
                c.pubs = []
            for pay, t in sent.items():
                e = sum(match(share(g)[1], t) for g in G)
                if tot[pay] != e: raise Violation("%s: message %r on %s arrived %d times in %d groups" % (mode, pay, t, tot[pay], e))
                ctx.eval((mode, t, len(on)), e)
            og = [bytes(x.payload) for x in O.pubs]; O.pubs = []
            if sorted(og) != sorted(sent): raise Violation("ordinary subscriber: %s" % diff(sent, og))
            sent = {}
    ctx.count("membership_changes", sum(c.next_pid for c in M))

def resume(ctx, k):
    """Messages given to an offline member are delivered to it when it comes back, exactly once over the group."""
    r = ctx.rng; mode = MODES[k % 3]; T = 2; b = ctx.broker(threads=T, conf=dict(BIGQ, shared_subscription_targeting=mode, expire_sessions_after_seconds=100000)); w = ctx.world(b); p = Client(w, b, "p", 5).connect(); u = Uniq("r")
    M = [Client(w, b, "m%d" % i, 4 + i % 2) for i in range(4)]; from collections import Counter
    for c in M: c.connect(clean=c.ver == 5, pr={"session_expiry": 50000} if c.ver == 5 else None); c.sub(("$share/g/r/#", 2))
    tot = Counter(); allsent = Counter()
    for rd in range(25):
        offs = [c for c in M if r.random() < 0.5]
        for c in offs: w.barrier([c]); w.barrier([c]); tot.update(bytes(x.payload) for x in c.pubs); c.pubs = []; drop_and_wait(w, b, c, T)
        for _ in range(20): pay = u(); p.pub("r/%d" % r.randint(0, 3), pay, r.choice([1, 2])); allsent[pay] += 1
        if rd % 5 == 4: elapse(w, b, 1900, T, 1900)
        for i, c in enumerate(M):
            if c in offs:
                n = Client(w, b, c.cid, c.ver).connect(clean=False, pr={"session_expiry": 50000} if c.ver == 5 else None); M[i] = n
                if not n.connack.sp and c.ver != 3: raise Violation("session of %s lost" % c.cid)
        for _ in range(3): w.barrier([p], M)
        for c in M: tot.update(bytes(x.payload) for x in c.pubs); c.pubs = []
        d = diff(allsent.elements(), tot.elements())
        if d: raise Violation("%s, members offline %s: %s" % (mode, [c.cid for c in offs], d))
        ctx.eval((mode, len(offs)), 20)

def holes(ctx, k):
    """Groups in which most members have left (empty places in the broker's list), many publishers at the same time."""
    r = ctx.rng; mode = MODES[k % 3] if k >= 3 else "round_robin"; T = 6; b = ctx.broker(threads=T, conf=dict(BIGQ, shared_subscription_targeting=mode), noise=[0, 100, 300][k % 3]); w = ctx.world(b)
    from collections import Counter
    P = [Client(w, b, "hp%d" % i, 4).connect() for i in range(6)]; n = r.choice([2, 3, 5]); M = [Client(w, b, "hm%d" % i, 5).connect() for i in range(n)]; u = Uniq("h")
    for g in "abcd":
        ms = list(M); r.shuffle(ms)
        for m in ms: m.sub(("$share/%s/h/#" % g, 0))
        for m in ms[:n - 1]: m.unsub("$share/%s/h/#" % g)
    for rd in range(20):
        sent = Counter()
        for _ in range(60):
            for p in P: pay = u(); p.pub("h/%d" % r.randint(0, 1), pay, 0, wait=False); sent[pay] += 4
        w.barrier(P, M); got = Counter()
        for m in M: got.update(bytes(x.payload) for x in m.pubs); m.pubs = []
        d = diff(sent.elements(), got.elements())
        if d: raise Violation("%s, 4 groups with one member each and %d empty places, 6 concurrent publishers: %s" % (mode, n - 1, d))
        ctx.eval((mode, n, rd), 4 * len(sent))
