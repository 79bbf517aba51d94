"""Scripted servers on the loopback, for streams."""
import socket, threading, time

class Server:
    """serve(conn) is called for each connection in a thread of its own; its results are collected"""
    def __init__(self, serve, family=socket.AF_INET, addr=None):
        self.s = socket.socket(family, socket.SOCK_STREAM)
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind((addr or ("::1" if family == socket.AF_INET6 else "127.0.0.1"), 0))
        self.s.listen(16)
        self.port = self.s.getsockname()[1]
        self.serve, self.results, self.errors, self.threads, self.closing = serve, [], [], [], False
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()
    def loop(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            if self.closing:
                c.close()
                return
            t = threading.Thread(target=self.one, args=(c,), daemon=True)
            self.threads.append(t)
            t.start()
    def one(self, c):
        c.settimeout(60)
        try:
            self.results.append(self.serve(c))
        except OSError as e:
            self.results.append(e)
        finally:
            c.close()
    def close(self):
        """stop, wait for what is under way, return the results"""
        if not self.closing:
            self.closing = True
            try:        # wakes accept()
                with socket.create_connection(self.s.getsockname()[:2], 5):
                    pass
            except OSError:
                pass
            self.t.join(10)
            self.s.close()
            for t in self.threads:
                t.join(70)
        return self.results

def has_v6():
    try:
        with socket.socket(socket.AF_INET6, socket.SOCK_STREAM) as s:
            s.bind(("::1", 0))
        return True
    except OSError:
        return False

_held = []
def closed_port():
    """a port nobody listens on, nor gets to use while we run"""
    if not _held:
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        _held.append(s)
    return _held[0].getsockname()[1]

def slurp(c):
    out = b""
    while True:
        try:
            b = c.recv(65536)
        except ConnectionResetError:
            return out
        if not b:
            return out
        out += b

def send_pieces(c, pieces, pause=0.0):
    for p in pieces:
        if isinstance(p, bytes):
            c.sendall(p)
        if pause:
            time.sleep(pause)
