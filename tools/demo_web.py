"""A web server for the demonstration: serve(table) -> base URL; requests are recorded."""
import http.server
import threading

REQUESTS = []


def serve(table):
    class H(http.server.BaseHTTPRequestHandler):
        def do_GET(self):
            REQUESTS.append((self.command, self.path, dict(self.headers)))
            v = table.get(self.path)
            if callable(v):
                v = v()
            if v is None:
                self.send_error(404)
                return
            heads = {}
            if isinstance(v, tuple):
                v, heads = v
            if isinstance(v, str):
                v = v.encode()
            self.send_response(200)
            heads.setdefault('Content-Length', str(len(v)))
            for k in heads:
                self.send_header(k, heads[k])
            self.end_headers()
            if self.command == 'GET':
                self.wfile.write(v)
        do_HEAD = do_GET

        def log_message(self, *a):
            pass
    s = http.server.ThreadingHTTPServer(('127.0.0.1', 0), H)
    threading.Thread(target=s.serve_forever, daemon=True).start()
    return 'http://127.0.0.1:%d' % s.server_address[1]
