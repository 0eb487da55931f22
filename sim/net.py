"""Simulated network: one host that answers HTTP requests, with planned faults.

The real urllib and http.client run on an in-memory connection. TLS is passed through. The plan has one
entry for each connection; further connections are healthy.
"""

import io
import socket
import ssl

from . import clock


class Net:
    def __init__(self, serve, ctx):
        self.serve = serve  # request target -> (status, headers, body)
        self.ctx = ctx
        self.plan = []
        self.delivered = []  # bodies that reached the client in full (if nothing else fails)
        self.requests = []
        self.on_io = None

    def reset(self, plan):
        self.plan = list(plan)
        self.delivered = []
        self.requests = []

    def install(self):
        net = self

        def connect(address, timeout=None, source_address=None, **kw):
            if net.on_io:
                net.on_io("connect")
            f = net.plan.pop(0) if net.plan else {}
            clock.advance(f.get("delay", 0.05))
            net.ctx.count("sim:seconds", f.get("delay", 0.05))
            k = f.get("kind")
            if k in ("refused", "unreachable", "dns", "connect_timeout", "tls"):
                net.ctx.count("fault:net " + k)
                raise {"refused": ConnectionRefusedError(111, "Connection refused"),
                       "unreachable": OSError(113, "No route to host"),
                       "dns": socket.gaierror(-2, "Name or service not known"),
                       "tls": ssl.SSLError(1, "handshake failure"),
                       "connect_timeout": TimeoutError(110, "Connection timed out")}[k]
            return Sock(net, f)

        socket.create_connection = connect
        ssl.SSLContext.wrap_socket = lambda self, sock, *a, **k: sock


class Sock:
    def __init__(self, net, fault):
        self.net = net
        self.fault = fault
        self.sent = b""
        self.out = None
        self.pos = 0
        self.refs = 1

    def setsockopt(self, *a):
        pass

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return None

    def shutdown(self, how):
        pass

    def fileno(self):
        return -1

    def getpeername(self):
        return ("192.0.2.1", 443)

    def close(self):
        pass

    def sendall(self, data, *a):
        if self.fault.get("kind") == "send_reset":
            self.net.ctx.count("fault:net send_reset")
            raise BrokenPipeError(32, "Broken pipe")
        self.sent += bytes(data)

    send = sendall

    def respond(self):
        net, f = self.net, self.fault
        target = self.sent.split(b"\r\n")[0].split(b" ")[1].decode()
        net.requests.append(target)
        status, headers, body = net.serve(target, f)
        k = f.get("kind")
        framing = f.get("framing", "length")
        lines = [f"HTTP/1.1 {status} X"] + [f"{a}: {b}" for a, b in headers]
        if framing == "length":
            lines.append(f"Content-Length: {len(body)}")
        elif framing == "chunked":
            lines.append("Transfer-Encoding: chunked")
        lines.append("Connection: close")
        head = ("\r\n".join(lines) + "\r\n\r\n").encode()
        payload = body
        if framing == "chunked":
            n = max(len(body) // 5, 1)
            payload = b"".join(b"%x\r\n%s\r\n" % (len(body[i:i + n]), body[i:i + n])
                               for i in range(0, len(body), n)) + b"0\r\n\r\n"
        out = head + payload
        self.end, whole = None, True
        if k in ("cut", "reset", "stall", "interrupt"):
            # at some point of the stream, never after its end
            n = int(f["at"] * len(out))
            if f["at"] >= 0.97:
                n = len(out) - 1 - int((f["at"] - 0.97) * 100)
            # only the end mark of a chunked body may be lost: the body arrived in full
            whole = framing == "chunked" and len(out) - n <= 5
            out = out[:max(n, 0)]
            self.end = k
            net.ctx.count("fault:net " + k)
        elif k == "garble":
            i = int(f["at"] * len(head))
            out = out[:i] + bytes([out[i] ^ 0x80]) + out[i + 1:]
            net.ctx.count("fault:net garble")
        if status == 200 and whole:
            net.delivered.append(body)
        self.out = out

    def read(self, n):
        if self.net.on_io:
            self.net.on_io("receive")
        if self.out is None:
            self.respond()
        if self.pos >= len(self.out):
            if self.end == "reset":
                raise ConnectionResetError(104, "Connection reset by peer")
            if self.end == "interrupt":
                raise KeyboardInterrupt("injected")
            if self.end == "stall":
                clock.advance(900)
                self.net.ctx.count("sim:seconds", 900)
                raise TimeoutError(110, "Connection timed out")
            return b""
        n = min(n, self.fault.get("mtu", 1 << 20))
        b = self.out[self.pos:self.pos + n]
        self.pos += len(b)
        return b

    def recv(self, n, *a):
        return self.read(n)

    def makefile(self, mode="r", *a, **k):
        return io.BufferedReader(_Raw(self))


class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        data = self.sock.read(len(b))
        b[:len(data)] = data
        return len(data)
