"""A simulated search service behind requests' transport adapter, on a simulated clock."""
import gzip
import io
import json
import time
from urllib.parse import parse_qsl, urlsplit


class Hang(BaseException):
    """The product waits for ever (no time limit on a stalled connection)."""


class Service:
    """`plan` is a list of behaviours, one per request received (redirect targets included)."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.now = 0.0
        self.plan = []
        self.seen = []

    # ------------------------------------------------------------------ behaviours
    def wait(self, seconds, limit, what):
        import requests
        if limit is None:
            if seconds is None:
                raise Hang(what)
            self.now += seconds
            return
        if seconds is None or seconds > limit:
            self.now += limit
            raise (requests.exceptions.ConnectTimeout if what == "connect" else requests.exceptions.ReadTimeout)(f"{what} timed out")
        self.now += seconds

    def send(self, adapter, request, timeout):
        import requests
        import urllib3
        ct = rt = timeout
        if isinstance(timeout, tuple):
            ct, rt = timeout
        elif hasattr(timeout, "read_timeout"):
            ct, rt = timeout.connect_timeout, timeout.read_timeout
        b = self.plan.pop(0) if self.plan else {"k": "refused"}
        u = urlsplit(request.url)
        self.seen.append({"url": request.url, "host": u.hostname, "path": u.path, "scheme": u.scheme, "method": request.method,
                          "query": parse_qsl(u.query, keep_blank_values=True, errors="strict"), "fragment": u.fragment, "k": b["k"]})
        k = b["k"]
        self.wait(b.get("connect", 0.01), ct, "connect")
        if k == "connect-stall":
            self.wait(None, ct, "connect")
        if k == "refused":
            raise requests.exceptions.ConnectionError("connection refused")
        if k == "dns":
            raise requests.exceptions.ConnectionError("name resolution failed")
        if k == "ssl":
            raise requests.exceptions.SSLError("certificate verify failed")
        if k == "reset":
            self.now += b.get("latency", 0)
            raise requests.exceptions.ConnectionError("connection reset by peer")
        self.wait(b.get("latency", 0.2), rt, "read")
        if k == "stall":
            self.wait(None, rt, "read")
        headers = {"Content-Type": b.get("ctype", "application/json")}
        body, status = b.get("body", b""), b.get("status", 200)
        if isinstance(body, str):
            body = body.encode(b.get("charset", "utf-8"))
        if b.get("gzip"):
            body = gzip.compress(body, mtime=0)
            headers["Content-Encoding"] = "gzip"
        headers["Content-Length"] = str(len(body))
        cut = b.get("cut")
        if cut is not None:
            body = body[:int(len(body) * cut)]
        if k == "redirect":
            headers["Location"] = b["to"].replace("{url}", request.url)
        svc = self

        class Raw(io.BytesIO):
            def read(self, n=-1):
                if b.get("body_stall") and self.tell() >= len(body) // 2:
                    try:
                        svc.wait(None, rt, "read")
                    except requests.exceptions.ReadTimeout:
                        raise urllib3.exceptions.ReadTimeoutError(None, request.url, "Read timed out.") from None
                return super().read(n)

        raw = urllib3.HTTPResponse(body=Raw(body), headers=headers, status=status, preload_content=False, enforce_content_length=True,
                                   decode_content=False, request_method=request.method)
        return adapter.build_response(request, raw)

    # ------------------------------------------------------------------ installation
    def install(self):
        import requests
        svc = self

        def send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            return svc.send(adapter, request, timeout)
        requests.adapters.HTTPAdapter.send = send

        def sleep(s):
            svc.now += s
        time.sleep = sleep
        time.time = lambda: 1.7e9 + svc.now
        time.monotonic = lambda: 1e3 + svc.now
        import socket

        def no(*_a, **_k):
            raise AssertionError("real network access")
        socket.socket.connect = no
        socket.create_connection = no


def reply(images):
    return json.dumps({"images": images})
