"""Loopback HTTP server with scripted answers. Commands as JSON lines on stdin, one JSON answer line each."""
import hashlib
import json
import os
import socket
import struct
import sys
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

STATE = {}
COUNT = {}
LOCK = threading.Lock()


def body(path, version, size):
    out, i = [], 0
    n = 0
    while n < size:
        b = hashlib.sha256(("%s|%s|%d" % (path, version, i)).encode()).digest()
        out.append(b)
        n += len(b)
        i += 1
    return b"".join(out)[:size]


class H(BaseHTTPRequestHandler):
    def log_message(self, *a):
        pass

    def do_GET(self):
        with LOCK:
            COUNT[self.path] = COUNT.get(self.path, 0) + 1
            st = STATE.get(self.path)
            fault = None
            if st and st.get("faults"):
                fault = st["faults"].pop(0)
        if st is None:
            self.send_error(404)
            return
        if st.get("file"):
            with open(st["file"], "rb") as f:
                data = f.read()
        else:
            data = body(self.path, st["version"], st["size"])
        if fault is None or fault == "ok":
            self.reply(data, data)
        elif fault == "close":
            self.close_connection = True
            self.connection.close()
        elif fault.startswith("status:"):
            self.send_error(int(fault[7:]))
        elif fault.startswith("trunc:"):
            self.reply(data, data[: int(fault[6:])])
        elif fault.startswith("reset:"):
            self.reply(data, data[: int(fault[6:])])
            self.wfile.flush()
            self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.connection.close()

    def reply(self, data, send):
        self.send_response(200)
        self.send_header("Content-Length", str(len(data)))
        self.send_header("Content-Type", "application/octet-stream")
        self.end_headers()
        self.wfile.write(send)
        self.close_connection = True

    def handle(self):
        try:
            super().handle()
        except Exception:
            pass

    def finish(self):
        try:
            super().finish()
        except Exception:
            pass


def main():
    srv = ThreadingHTTPServer(("127.0.0.1", 0), H)
    srv.daemon_threads = True
    threading.Thread(target=srv.serve_forever, daemon=True).start()
    print(json.dumps({"port": srv.server_address[1]}), flush=True)
    for line in sys.stdin:
        c = json.loads(line)
        r = {"ok": True}
        with LOCK:
            if c["op"] == "set":
                STATE[c["path"]] = {k: c.get(k) for k in ("version", "size", "faults", "file")}
            elif c["op"] == "count":
                r["count"] = COUNT.get(c["path"], 0)
            elif c["op"] == "total":
                r["count"] = sum(COUNT.values())
            elif c["op"] == "reset":
                STATE.clear()
                COUNT.clear()
        print(json.dumps(r), flush=True)
    os._exit(0)


if __name__ == "__main__":
    main()
