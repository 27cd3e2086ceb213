"""A service on the loopback network which records what reaches it, and misbehaves on demand."""

import gzip
import os
import socket
import threading
import time


def host(number):
    """An address on the loopback network that no other process of the checks uses."""

    n = os.getpid()
    name = f"127.{1 + (n >> 14) % 250}.{(n >> 6) % 256}.{1 + (n % 64) * 3 + min(number, 3) - 1}"
    with socket.socket(socket.AF_INET, socket.SOCK_STREAM) as s:
        try:
            s.bind((name, 0))
        except OSError:
            return "127.0.0.1"
    return name


class Request:
    def __init__(self, method, target, headers, body, number):
        self.method, self.target, self.headers, self.body, self.number = method, target, headers, body, number


class Server:
    """Answers each request as its mode says; a mode is a function of (server, connection, request), or None for the usual."""

    def __init__(self, number=0):
        self.number = number
        self.host = host(number)
        self.received, self.accepted, self.serial = [], 0, 0
        self.mode = None
        self.hook = None
        self.lock = threading.Lock()
        self.socket = self.thread = None
        self.port = 0
        self.stopping = threading.Event()
        self.start()

    def start(self):
        for _ in range(50):
            s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind((self.host, self.port))
                break
            except OSError:
                s.close()
                time.sleep(0.1)
        else:
            raise OSError("port is taken")
        self.port = s.getsockname()[1]
        self.place = f"{self.host}:{self.port}"
        s.listen(16)
        self.socket = s
        self.stopping = threading.Event()
        self.thread = threading.Thread(target=self.serve, args=(s, self.stopping), daemon=True)
        self.thread.start()

    def stop(self):
        """Nobody listens on the port, which stays that of the server."""

        self.stopping.set()
        try:
            self.socket.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.socket.close()
        self.thread.join(5)

    def serve(self, s, stopping):
        while not stopping.is_set():
            try:
                c, _ = s.accept()
            except OSError:
                return
            with self.lock:
                self.accepted += 1
            threading.Thread(target=self.talk, args=(c,), daemon=True).start()

    def read(self, c, at_once=b""):
        data = at_once
        while b"\r\n\r\n" not in data:
            part = c.recv(65536)
            if not part:
                return None
            data += part
        head, data = data.split(b"\r\n\r\n", 1)
        lines = head.decode("latin-1").split("\r\n")
        method, target, _ = lines[0].split(" ", 2)
        headers = [tuple(x.split(": ", 1)) if ": " in x else (x.rstrip(":"), "") for x in lines[1:]]
        low = {k.lower(): v for k, v in headers}
        if "content-length" in low:
            while len(data) < int(low["content-length"]):
                part = c.recv(65536)
                if not part:
                    return None
                data += part
        elif low.get("transfer-encoding", "").lower() == "chunked":
            body = b""
            while True:
                while b"\r\n" not in data:
                    data += c.recv(65536)
                size, data = data.split(b"\r\n", 1)
                n = int(size, 16)
                while len(data) < n + 2:
                    data += c.recv(65536)
                body, data = body + data[:n], data[n + 2:]
                if not n:
                    break
            data = body
        with self.lock:
            self.serial += 1
            r = Request(method, target, headers, data, self.serial)
            self.received.append(r)
        return r

    def talk(self, c):
        c.settimeout(20)
        try:
            mode = self.mode
            if mode and getattr(mode, "early", False):
                mode(self, c, None)
                return
            r = self.read(c)
            if r is None:
                return
            if self.hook:
                self.hook()
            if mode:
                mode(self, c, r)
            else:
                body = b"" if r.method == "HEAD" else b"answer %d" % r.number
                c.sendall(b"HTTP/1.1 200 OK\r\nX-Number: %d\r\nSet-Cookie: session=s%d; Path=/\r\nContent-Length: %d\r\nConnection: keep-alive\r\n\r\n"
                          % (r.number, r.number, len(body)) + body)
                # A client may use the connection again.
                while True:
                    r = self.read(c)
                    if r is None:
                        return
                    body = b"" if r.method == "HEAD" else b"answer %d" % r.number
                    c.sendall(b"HTTP/1.1 200 OK\r\nX-Number: %d\r\nContent-Length: %d\r\n\r\n" % (r.number, len(body)) + body)
        except (OSError, ValueError, IndexError):
            pass
        finally:
            try:
                c.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            c.close()

    def take(self):
        with self.lock:
            out, self.received = self.received, []
            n, self.accepted = self.accepted, 0
        return out, n


REASON = {200: "OK", 404: "Not Found"}


def reply(status, body=b"", form="length", headers=()):
    """A mode that answers completely."""

    def mode(server, c, r):
        head = f"HTTP/1.1 {status} {REASON.get(status, 'Reason')}\r\nX-Number: {r.number}\r\n" + "".join(f"{k}: {v}\r\n" for k, v in headers)
        empty = r.method == "HEAD" or status in (204, 304)
        if status in (204, 304):
            c.sendall((head + "\r\n").encode())
        elif form == "chunked":
            c.sendall((head + "Transfer-Encoding: chunked\r\n\r\n").encode())
            if not empty:
                for i in range(0, len(body), 1000):
                    part = body[i:i + 1000]
                    c.sendall(b"%x\r\n" % len(part) + part + b"\r\n")
                c.sendall(b"0\r\n\r\n")
        elif form == "close":
            c.sendall((head + "Connection: close\r\n\r\n").encode() + (b"" if empty else body))
        elif form == "gzip":
            packed = gzip.compress(body)
            c.sendall((head + f"Content-Encoding: gzip\r\nContent-Length: {len(packed)}\r\n\r\n").encode() + (b"" if empty else packed))
        elif form == "slow":
            c.sendall((head + f"Content-Length: {len(body)}\r\n\r\n").encode())
            if not empty:
                for i in range(3):
                    time.sleep(0.1)
                    c.sendall(body[len(body) * i // 3: len(body) * (i + 1) // 3])
        elif form == "late":
            time.sleep(0.5)
            c.sendall((head + f"Content-Length: {len(body)}\r\n\r\n").encode() + (b"" if empty else body))
        else:
            c.sendall((head + f"Content-Length: {len(body)}\r\n\r\n").encode() + (b"" if empty else body))

    return mode


def redirect(status, location):
    """A mode that sends the client elsewhere."""

    def mode(server, c, r):
        c.sendall(f"HTTP/1.1 {status} Elsewhere\r\nLocation: {location}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n".encode())

    return mode


def drop_early(server, c, r):
    pass


drop_early.early = True


def drop_request(server, c, r):
    pass


def drop_status(server, c, r):
    # Within the status line.
    c.sendall(b"HTTP/1.1 2")


def drop_body(server, c, r):
    c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 5000\r\n\r\n" + (b"" if r.method == "HEAD" else b"x" * 4000))


def drop_chunk(server, c, r):
    c.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + (b"" if r.method == "HEAD" else b"10\r\n" + b"x" * 16 + b"\r\n10\r\nxx"))


def garbage(server, c, r):
    c.sendall(b"\x00\x01 this is not a response\r\n\r\n")


def wait_gone(c, seconds=15.0):
    """Waits until the other side gives up."""

    c.settimeout(seconds)
    try:
        while c.recv(4096):
            pass
    except OSError:
        pass


def stall(server, c, r):
    wait_gone(c)


def stall_early(server, c, r):
    # Accepts, reads and answers nothing.
    wait_gone(c)


stall_early.early = True


def stall_status(server, c, r):
    c.sendall(b"HTTP/1.1 200 OK\r\n")
    wait_gone(c)


def stall_body(server, c, r):
    c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 5000\r\n\r\n" + (b"" if r.method == "HEAD" else b"x" * 100))
    if r.method != "HEAD":
        wait_gone(c)


class Full:
    """A port whose backlog is full: a connection is neither accepted nor refused."""

    def __init__(self):
        self.socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.host = host(9)
        self.socket.bind((self.host, 0))
        self.socket.listen(0)
        self.port = self.socket.getsockname()[1]
        self.place = f"{self.host}:{self.port}"
        self.held = []
        for _ in range(4):
            s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            s.setblocking(False)
            try:
                s.connect((self.host, self.port))
            except BlockingIOError:
                pass
            self.held.append(s)
        time.sleep(0.05)

    def close(self):
        for s in self.held:
            s.close()
        self.socket.close()
