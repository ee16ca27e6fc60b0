"""A loopback HTTP server with scripted faults, one per process."""
import http.server
import os
import socket
import threading


class Web:
    def __init__(self):
        self.files = {}  # path -> bytes
        self.plan = {}  # file name -> list of behaviours, consumed per request
        self.log = []
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def do_GET(self):
                name = self.path.rsplit("/", 1)[-1]
                todo = outer.plan.get(name)
                what = todo.pop(0) if todo else "ok"
                outer.log.append((self.path, what))
                if what == "reset":
                    self.close_connection = True
                    self.connection.shutdown(socket.SHUT_RDWR)
                    return
                body = outer.files.get(self.path)
                if body is None:
                    what = "404"
                if what in ("404", "500", "503"):
                    msg = b"<html>error</html>"
                    self.send_response(int(what))
                    self.send_header("Content-Length", str(len(msg)))
                    self.end_headers()
                    self.wfile.write(msg)
                    return
                self.send_response(200)
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                if what.startswith("trunc"):  # truncNN: NN percent of the body
                    body = body[: len(body) * int(what[5:]) // 100]
                self.wfile.write(body)
                self.close_connection = True

            do_HEAD = do_GET

        class S(http.server.ThreadingHTTPServer):
            daemon_threads = True

            def handle_error(self, *a):
                pass

        self.server = S(("127.0.0.1", 0), H)
        self.port = self.server.server_address[1]
        threading.Thread(target=self.server.serve_forever, kwargs=dict(poll_interval=0.05), daemon=True).start()
        os.environ["no_proxy"] = os.environ["NO_PROXY"] = "*"

    def url(self, path):
        return f"http://127.0.0.1:{self.port}{path}"


_WEB = {}


def get_web():
    pid = os.getpid()
    if pid not in _WEB:
        _WEB.clear()
        _WEB[pid] = Web()
    return _WEB[pid]
