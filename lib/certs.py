"""Throw-away certificates (openssl command line) for TLS listeners and client verification."""
import os, subprocess
def _run(d, *a): subprocess.run(["openssl", *a], cwd=d, check=True, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
def ca(d, name="ca", cn="Test CA"):
    _run(d, "req", "-x509", "-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:prime256v1", "-nodes", "-keyout", name + ".key", "-out", name + ".crt", "-days", "3650", "-subj", "/CN=" + cn)
    return os.path.join(d, name + ".crt")
def cert(d, name, cn, by="ca", days=3650, subj=None):
    """-> (crt, key) signed by the ca of that name in d"""
    _run(d, "req", "-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:prime256v1", "-nodes", "-keyout", name + ".key", "-out", name + ".csr", "-subj", subj or "/CN=" + cn)
    _run(d, "x509", "-req", "-in", name + ".csr", "-CA", by + ".crt", "-CAkey", by + ".key", "-CAcreateserial", "-out", name + ".crt", "-days", str(days))
    return os.path.join(d, name + ".crt"), os.path.join(d, name + ".key")
