"""Starts, watches and stops instrumented brokers."""
import os, sys, time, socket, signal, struct, ctypes, mmap, shutil, subprocess, tempfile, random, re, ssl as _ssl
from . import build
from .mqtt import Violation, Timeout, World, Client

OFF = {"clock": 0, "noise": 8, "seed": 16, "slow_mod": 24, "slow_us": 32, "armed": 40, "at": 48, "mode": 56, "ops": 64,
       "noise_hits": 72, "slow_hits": 80, "fired": 88, "op_delay": 96,
       "tcount": 104, "tus": 112, "tden": 120, "thits": 128, "dns_ms": 648, "dns_lookups": 656, "dns_finished": 664, "heap_want": 672, "heap_bytes": 680}
_syms = {}
def symbols(exe):
    """name (demangled) -> offset of functions from __executable_start"""
    if exe not in _syms:
        base = 0; out = []
        for l in subprocess.run(["nm", "-C", "--defined-only", exe], capture_output=True, text=True).stdout.splitlines():
            p = l.split(None, 2)
            if len(p) < 3: continue
            if p[2] == "__executable_start": base = int(p[0], 16)
            if p[1] in "tTwW": out.append((p[2], int(p[0], 16)))
        _syms[exe] = [(n, a - base) for n, a in out]
    return _syms[exe]
_SUPP = os.path.join(build.VERIF, "lib", "tsan.supp")

def free_port(hold=None):
    """A port nobody listens on, outside of the ephemeral range so that nobody gets it by accident. With hold (a list), the port stays reserved
    by a bound socket until that is closed: FlashMQ listens with SO_REUSEPORT, so two brokers started by parallel cases on one port would share its connections."""
    while True:
        p = random.SystemRandom().randrange(10000, 32000)
        s = socket.socket()
        try: s.bind(("127.0.0.1", p))
        except OSError: s.close(); continue
        if hold is None: s.close()
        else: s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1); hold.append(s)
        return p

class Broker:
    def __init__(self, conf=None, listeners=None, variant="noise", threads=2, storage=False, anonymous=True, noise=0, seed=1, slow_mod=0, slow_us=300,
                 name="b", extra="", start=True, leaks=False, files=None, clock=True, env=None, shared_dir=None, log_debug=False):
        """conf: dict of extra settings. listeners: list of dicts (name->value); default one TCP mqtt listener.
        extra: raw text appended to the configuration (bridge blocks, plugin options). {dir} is replaced everywhere by the scratch dir."""
        self.exe = build.build(variant); self.variant = variant; self.name = name
        self.dir = tempfile.mkdtemp(prefix="fmqv-", dir=shm_dir())
        os.mkdir(self.dir + "/storage"); os.mkdir(self.dir + "/san")
        self.conf = dict(conf or {}); self.threads = threads; self.storage = storage; self.anonymous = anonymous
        self.extra = extra; self.leaks = leaks; self.env = dict(env or {}); self.proc = None; self.runs = 0; self.log_debug = log_debug
        self.listeners = [dict(l) for l in (listeners or [{"protocol": "mqtt"}])]
        self.ports = {}; self.held = []
        for i, l in enumerate(self.listeners):
            if "unix_socket_path" not in l and "port" not in l: l["port"] = free_port(self.held)
            nm = l.pop("name", "l%d" % i); self.ports[nm] = l.get("port") or l.get("unix_socket_path", "").replace("{dir}", self.dir)
            l["_name"] = nm
        self.port = next((l["port"] for l in self.listeners if "port" in l), None)
        for fn, text in (files or {}).items(): self.write(fn, text)
        self.shm_path = self.dir + "/shm"
        with open(self.shm_path, "wb") as f: f.write(b"\0" * 4096)
        self._fd = os.open(self.shm_path, os.O_RDWR); self.shm = mmap.mmap(self._fd, 4096); self._q = (ctypes.c_int64 * 512).from_buffer(self.shm)
        self.set("seed", seed); self.set("noise", noise); self.set("slow_mod", slow_mod); self.set("slow_us", slow_us)
        self.exits = []; self.expected_dead = False; self.preload_conf = None
        if start: self.start()

    # ---- shared page
    # Through ctypes, because that accesses 8 bytes at once; struct.pack_into() zeroes them first and then writes byte by byte, so the broker's clock would jump back for a moment.
    def get(self, k): return self._q[OFF[k] // 8]
    def set(self, k, v): self._q[OFF[k] // 8] = int(v)
    def advance(self, seconds):
        """Move the broker's clocks forward."""
        self.set("clock", self.get("clock") + int(seconds * 1e9))
    def faults(self, at=0, mode=0, armed=1):
        self.set("ops", 0); self.set("fired", 0); self.set("at", at); self.set("mode", mode); self.set("armed", armed)

    def slow(self, regex, us=3000, den=1):
        """Delay entries of functions whose name matches (as far as they exist and are not inlined)."""
        offs = sorted({a for n, a in symbols(self.exe) if re.search(regex, n)})[:64] if regex else []
        self.set("tcount", 0)
        for i, a in enumerate(offs): self._q[17 + i] = a
        self.set("tus", us); self.set("tden", den); self.set("tcount", len(offs))
        return len(offs)

    # ---- files
    def path(self, fn): return os.path.join(self.dir, fn)
    def write(self, fn, text):
        if isinstance(text, str): text = text.encode()
        tmp = self.path(fn) + ".new"
        with open(tmp, "wb") as f: f.write(text.replace(b"{dir}", self.dir.encode()) if len(text) < 1000000 else text)
        os.rename(tmp, self.path(fn))
    def conf_text(self):
        out = []
        c = dict(self.conf)
        c.setdefault("thread_count", self.threads)
        c.setdefault("log_file", self.dir + "/log")
        if self.anonymous is not None: c.setdefault("allow_anonymous", "true" if self.anonymous else "false")
        if self.storage: c.setdefault("storage_dir", self.dir + "/storage")
        if self.log_debug: c.setdefault("log_level", "debug")
        for k, v in c.items():
            for x in (v if isinstance(v, list) else [v]): out.append("%s %s" % (k, x))
        for l in self.listeners:
            out.append("listen {")
            l2 = dict(l); l2.pop("_name", None)
            l2.setdefault("protocol", "mqtt")
            if "unix_socket_path" not in l2: l2.setdefault("inet_protocol", "ip4"); l2.setdefault("inet4_bind_address", "127.0.0.1")
            for k, v in l2.items():
                for x in (v if isinstance(v, list) else [v]): out.append("  %s %s" % (k, x))
            out.append("}")
        return ("\n".join(out) + "\n" + self.extra).replace("{dir}", self.dir)

    # ---- process
    def environ(self):
        e = {"PATH": os.environ.get("PATH", "/usr/bin"), "HOME": self.dir, "LC_ALL": "C.UTF-8", "TZ": "UTC", "FMQV_SHM": self.shm_path,
             "FMQV_DIR": self.dir + "/storage/", "FMQV_OPLOG": self.dir + "/oplog"}
        lp = self.dir + "/san/r"
        e["ASAN_OPTIONS"] = "log_path=%s:detect_leaks=%d:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:strict_string_checks=1:check_initialization_order=1:handle_abort=1:allocator_may_return_null=1:detect_odr_violation=0:quarantine_size_mb=%d:thread_local_quarantine_size_kb=%d" % (lp, 1 if self.leaks else 0, self.quarantine, 1024 if self.quarantine > 1 else 16)
        e["LSAN_OPTIONS"] = "exitcode=77:log_path=%s" % lp
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:log_path=%s" % lp
        e["TSAN_OPTIONS"] = "log_path=%s:exitcode=66:halt_on_error=0:second_deadlock_stack=1:detect_deadlocks=1:history_size=4:handle_abort=1:suppressions=%s" % (lp, _SUPP)
        sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
        if sym:
            for k in ("ASAN_OPTIONS", "TSAN_OPTIONS", "UBSAN_OPTIONS", "LSAN_OPTIONS"): e[k] += ":external_symbolizer_path=" + sym
        e.update(self.env)
        return e
    quarantine = 64    # MB; set to 0 before start() where memory is measured
    def start(self, wait=True):
        with open(self.dir + "/flashmq.conf", "w") as f: f.write(self.conf_text())
        self.runs += 1
        self.errf = open(self.dir + "/stderr", "ab")
        self.t_start = time.time()
        self.proc = subprocess.Popen([self.exe, "-c", self.dir + "/flashmq.conf"], cwd=self.dir, env=self.environ(), stdout=self.errf, stderr=self.errf,
                                     stdin=subprocess.DEVNULL, preexec_fn=_pre)
        self.expected_dead = False
        if wait: self.wait_listening()
        return self
    def wait_listening(self, timeout=60):
        end = time.monotonic() + timeout
        want = [l for l in self.listeners]
        while want:
            l = want[0]
            if self.proc.poll() is not None:
                self.check_reports()
                raise Violation("broker exited with %s at startup:\n%s" % (self.proc.returncode, self.tail()))
            try:
                if "unix_socket_path" in l:
                    s = socket.socket(socket.AF_UNIX); s.settimeout(5); s.connect(l["unix_socket_path"].replace("{dir}", self.dir))
                else:
                    s = socket.socket(socket.AF_INET6 if l.get("inet_protocol") == "ip6" else socket.AF_INET); s.settimeout(5)
                    s.connect(("::1" if l.get("inet_protocol") == "ip6" else "127.0.0.1", int(l["port"])))
                s.close(); want.pop(0)
            except OSError:
                time.sleep(0.02)
                if time.monotonic() > end: raise Timeout("broker does not listen:\n" + self.tail())
            finally:
                s.close()
    def alive(self): return self.proc is not None and self.proc.poll() is None
    def check_alive(self):
        if self.expected_dead or self.proc is None: return
        rc = self.proc.poll()
        if rc is not None:
            self.check_reports()
            raise Violation("broker died: exit status %s\n%s" % (rc, self.tail()))
    def hup(self): os.kill(self.proc.pid, signal.SIGHUP)
    def kill(self):
        """Simulated crash."""
        self.expected_dead = True
        if self.proc and self.proc.poll() is None:
            self.proc.kill(); self.proc.wait()
        self.errf.close()
    def stop(self, sig=signal.SIGTERM, timeout=60, check=True):
        """Ordinary stop; checks exit status and sanitizer reports."""
        if self.proc is None: return
        self.check_alive()
        self.expected_dead = True
        t0 = time.monotonic()
        self.proc.send_signal(sig)
        try: rc = self.proc.wait(timeout)
        except subprocess.TimeoutExpired:
            st = self.stacks()
            self.proc.kill(); self.proc.wait()
            raise Timeout("broker does not stop within %d s\n%s" % (timeout, st))
        finally: self.errf.close()
        self.stop_s = time.monotonic() - t0
        self.exits.append(rc)
        if check:
            self.check_reports()
            if rc != 0: raise Violation("broker exit status %s\n%s" % (rc, self.tail()))
        return rc
    def restart(self):
        self.stop(); self.start()
    def stacks(self):
        try: return subprocess.run(["gdb", "-p", str(self.proc.pid), "-batch", "-ex", "thread apply all bt 12"], capture_output=True, text=True, timeout=60).stdout[-6000:]
        except Exception: return ""
    def reports(self):
        out = []
        d = self.dir + "/san"
        for fn in sorted(os.listdir(d)):
            try: t = open(d + "/" + fn, errors="replace").read()
            except OSError: continue
            if "WARNING: ThreadSanitizer" in t or "ERROR:" in t or "runtime error" in t: out.append(t)
        try:
            t = open(self.dir + "/stderr", errors="replace").read()
            if "Assertion" in t or "terminate called" in t or "runtime error" in t or "AddressSanitizer" in t: out.append(t[-4000:])
        except OSError: pass
        return out
    def check_reports(self):
        r = self.reports()
        if r: raise Violation("sanitizer / assertion report:\n" + r[0][:6000])
    def tail(self, n=2500):
        out = ""
        for f in ("stderr", "log"):
            try: out += "--- %s\n%s\n" % (f, open(self.path(f), errors="replace").read()[-n:])
            except OSError: pass
        return out
    def log(self):
        try: return open(self.path("log"), errors="replace").read()
        except OSError: return ""
    def wait_log(self, rx, timeout=30, count=1, start=0):
        end = time.monotonic() + timeout
        while len(re.findall(rx, self.log()[start:])) < count:
            if time.monotonic() > end: raise Timeout("no %r in log" % rx)
            self.check_alive(); time.sleep(0.02)
    def heap(self, timeout=20):
        """Bytes allocated by the broker (sanitizer's allocator)."""
        self.set("heap_want", 1); end = time.monotonic() + timeout
        while self.get("heap_want"):
            if time.monotonic() > end: raise Timeout("heap size not reported")
            time.sleep(0.002)
        return self.get("heap_bytes")
    def fds(self): return len(os.listdir("/proc/%d/fd" % self.proc.pid))
    def rss_kb(self):
        for l in open("/proc/%d/status" % self.proc.pid):
            if l.startswith("VmRSS"): return int(l.split()[1])
    def cleanup(self):
        if self.proc is not None and self.proc.poll() is None:
            self.proc.kill(); self.proc.wait()
        try: self.errf.close()
        except Exception: pass
        try: self._q = None; self.shm.close(); os.close(self._fd)
        except Exception: pass
        for h in self.held: h.close()
        shutil.rmtree(self.dir, ignore_errors=True)

def _pre():
    import ctypes
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)    # a file size limit is an error, not death
    try: ctypes.CDLL(None).prctl(1, signal.SIGKILL)   # PR_SET_PDEATHSIG
    except Exception: pass

_dir = None
def shm_dir():
    """Scratch below /dev/shm or /tmp, removed by the caller."""
    global _dir
    if _dir is None:
        for d in ("/dev/shm", "/tmp"):
            try:
                t = tempfile.mkdtemp(prefix="fmqv-t", dir=d); os.rmdir(t); _dir = d; break
            except OSError: continue
    return _dir
