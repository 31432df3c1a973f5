import os, socket, subprocess, sys, tempfile, time, atexit, shutil, struct, base64
HERE = os.path.dirname(os.path.abspath(__file__))
TMP = tempfile.mkdtemp(prefix="demo.")
PROCS = []
def _end():
    for p in PROCS:
        p.kill(); p.wait()
    shutil.rmtree(TMP, ignore_errors=True)
atexit.register(_end)
LIBS = ["-lz", "-lbrotlienc", "-lbrotlidec", "-lbrotlicommon", "-lpthread"]
def build(src="demo.cpp", flags=(), whole=False):
    """Compiles a program beside this file against the library built in the working directory."""
    out = os.path.join(TMP, "demo")
    lib = ["_build/src/lambda.a"]
    if whole:
        lib = []
        for top in ("core", "extra"):
            for d, _, fs in os.walk(top):
                lib += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
        subprocess.run(["objcopy", "--input-target", "binary", "--output-target", "elf64-x86-64", "--binary-architecture",
                        "i386:x86-64", "core/html/resources/servicepage.html", TMP + "/page.o"], check=True)
        lib.append(TMP + "/page.o")
    subprocess.run(["g++", "-w", "-std=c++20", "-include", "cstdint", "-I.", *flags, os.path.join(HERE, src), *lib, *LIBS, "-o", out], check=True)
    return out
def run(exe, *args, timeout=120):
    r = subprocess.run([exe, *args], cwd=TMP, timeout=timeout)
    sys.exit(0 if r.returncode == 0 else 1)
def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
def serve(exe, *args):
    for _ in range(5):
        port = free_port()
        p = subprocess.Popen([exe, str(port), *args], cwd=TMP); PROCS.append(p)
        for _ in range(100):
            time.sleep(0.05)
            if p.poll() is not None: break
            try:
                socket.create_connection(("127.0.0.1", port), 1).close(); return port, p
            except OSError: pass
    print("server did not start"); sys.exit(2)
def connect(port):
    s = socket.create_connection(("127.0.0.1", port), 5); s.settimeout(8); return s
def recv_until(s, n=None, mark=None, limit=8):
    b = b""; end = time.time() + limit
    while time.time() < end:
        if n is not None and len(b) >= n: break
        if mark is not None and mark in b: break
        try: d = s.recv(65536)
        except (TimeoutError, ConnectionError): break
        if not d: break
        b += d
    return b
def response(s, buf=b""):
    """One response: (status, headers, body, rest)."""
    while b"\r\n\r\n" not in buf:
        d = s.recv(65536)
        if not d: return None
        buf += d
    head, buf = buf.split(b"\r\n\r\n", 1)
    lines = head.decode("latin1").split("\r\n")
    hs = {l.split(":", 1)[0].lower(): l.split(":", 1)[1].strip() for l in lines[1:]}
    n = int(hs.get("content-length", 0))
    while len(buf) < n:
        d = s.recv(65536)
        if not d: return None
        buf += d
    return int(lines[0].split()[1]), hs, buf[:n], buf[n:]
def ws(port, path="/ws"):
    s = connect(port)
    s.sendall(b"GET " + path.encode() + b" HTTP/1.1\r\nhost: a\r\nupgrade: websocket\r\nconnection: upgrade\r\nsec-websocket-version: 13\r\nsec-websocket-key: " + base64.b64encode(os.urandom(16)) + b"\r\n\r\n")
    b = b""
    while b"\r\n\r\n" not in b:
        d = s.recv(4096)
        if not d: break
        b += d
    assert b.startswith(b"HTTP/1.1 101"), b
    return s, b.split(b"\r\n\r\n", 1)[1]
def frame(op, data, fin=True):
    m = os.urandom(4); n = len(data)
    h = bytes([(0x80 if fin else 0) | op])
    h += bytes([0x80 | n]) if n < 126 else (b"\xfe" + struct.pack(">H", n) if n < 65536 else b"\xff" + struct.pack(">Q", n))
    return h + m + bytes(c ^ m[i % 4] for i, c in enumerate(data))
def read_frame(s, buf=b""):
    def need(n):
        nonlocal buf
        while len(buf) < n:
            d = s.recv(65536)
            if not d: raise ConnectionError
            buf += d
    need(2); n = buf[1] & 127; o = 2; form = n
    if n == 126: need(4); n = struct.unpack(">H", buf[2:4])[0]; o = 4
    elif n == 127: need(10); n = struct.unpack(">Q", buf[2:10])[0]; o = 10
    need(o + n)
    return buf[0] & 15, bool(buf[0] & 128), buf[o:o + n], buf[o + n:], form
def check(cond, what):
    if not cond:
        print("FAILED:", what); sys.exit(1)
