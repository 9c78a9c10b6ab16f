"""Replay server: real h5py, hickle from /repo as it is, one forked child per run."""
import os
import sys
import json
import shutil
import signal
import socket
import struct
import tempfile


def send(sock, obj):
    b = json.dumps(obj).encode()
    sock.sendall(struct.pack("<I", len(b)) + b)


def recv(sock):
    h = b""
    while len(h) < 4:
        x = sock.recv(4 - len(h))
        if not x:
            return None
        h += x
    n, = struct.unpack("<I", h)
    b = b""
    while len(b) < n:
        x = sock.recv(n - len(b))
        if not x:
            return None
        b += x
    return json.loads(b)


def one(req, scratch_root):
    """run in a child of its own"""
    from . import harness
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            os.setsid()
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 1)
            os.dup2(null, 2)
            # a child never outlives its budget
            signal.alarm(int(req.get("timeout", 60)))
            d = tempfile.mkdtemp(dir=scratch_root)
            os.chdir(d)
            try:
                res = harness.run_real(req["key"], req["params"], req["assignment"], d)
            finally:
                os.chdir("/")
                shutil.rmtree(d, ignore_errors=True)
            with os.fdopen(w, "w") as f:
                json.dump(res, f)
        except BaseException as e:
            code = 1
            try:
                os.write(w, json.dumps({"status": "error", "msg": repr(e), "checks": 0, "labels": []}).encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        data += x
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(data)
    except ValueError:
        return {"status": "error", "msg": "replay died or timed out", "checks": 0, "labels": []}


def serve(path, scratch_root, scenarios):
    sys.path.insert(0, os.environ.get("HICKLE_ROOT", "/repo"))
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    import h5py            # noqa
    import hickle          # noqa
    for m in scenarios:
        __import__(m)
    import scipy.sparse    # noqa
    try:
        import hickle.loaders.load_numpy, hickle.loaders.load_scipy, hickle.loaders.load_astropy   # noqa
        import hickle.legacy_v3        # noqa
    except Exception:
        pass
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    print("ready", flush=True)
    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    while True:
        c, _ = srv.accept()
        # reap finished handlers
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        if os.fork() == 0:
            srv.close()
            try:
                while True:
                    req = recv(c)
                    if req is None:
                        break
                    send(c, one(req, scratch_root))
            except BaseException:
                pass
            os._exit(0)
        c.close()


class Client:
    def __init__(self, path):
        self.path = path
        self.sock = None

    def __call__(self, key, params, assignment, timeout=60):
        if self.sock is None:
            self.sock = socket.socket(socket.AF_UNIX)
            self.sock.connect(self.path)
        send(self.sock, {"key": key, "params": params, "assignment": assignment, "timeout": timeout})
        return recv(self.sock) or {"status": "error", "msg": "replay server gone", "checks": 0, "labels": []}


if __name__ == "__main__":
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    serve(sys.argv[1], sys.argv[2], sys.argv[3:])
