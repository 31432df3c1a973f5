"""Running line-protocol drivers."""
import subprocess


class Died(Exception):
    pass


def batch(exe, lines, timeout=120, env=None, cwd=None, args=()):
    """Sends all lines, returns (output lines, return code, stderr)."""
    try:
        r = subprocess.run([exe, *args], input=("\n".join(lines) + "\n").encode(), capture_output=True,
                           timeout=timeout, env=env, cwd=cwd)
        return r.stdout.decode("latin-1").split("\n")[:-1], r.returncode, r.stderr.decode("latin-1")
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b"").decode("latin-1").split("\n")[:-1], None, (e.stderr or b"").decode("latin-1")


def hx(s):
    b = s if isinstance(s, bytes) else s.encode("latin-1")
    return b.hex() or "-"


def unhx(h):
    return b"" if h == "-" else bytes.fromhex(h)
