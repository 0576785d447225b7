"""HTTP server of the cases, on the loopback interface (driver side)."""
import gzip
import http.server
import threading
import urllib.parse

from vf.core import s2b


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'

    def log_message(self, *args):
        pass

    def do_GET(self):
        server = self.server.owner
        self.close_connection = True
        with server.lock:
            server.requests.append(self.path)
            answer = server.routes.get(self.path)
        if answer is None:
            answer = {'status': 404, 'body': 'not here'}
        body = answer.get('body', '')
        if isinstance(body, str):
            body = s2b(body)
        status = answer.get('status', 200)
        how = answer.get('how', 'length')
        headers = []
        accept = self.headers.get('Accept-Encoding', '')
        if answer.get('gzip') and 'gzip' in accept:
            body = gzip.compress(body)
            headers.append(('Content-Encoding', 'gzip'))
        if 'location' in answer:
            headers.append(('Location', answer['location']))
        cut = answer.get('cut')
        try:
            if how == 'drop':
                return
            self.send_response(status)
            for k, v in headers:
                self.send_header(k, v)
            self.send_header('Content-Type', 'application/octet-stream')
            self.send_header('Connection', 'close')
            if how == 'chunked':
                self.send_header('Transfer-Encoding', 'chunked')
                self.end_headers()
                sent = body if cut is None else body[:cut]
                size = answer.get('chunk', 1000)
                for i in range(0, len(sent), size):
                    piece = sent[i:i + size]
                    self.wfile.write(b'%x\r\n' % len(piece) + piece + b'\r\n')
                if cut is None:
                    self.wfile.write(b'0\r\n\r\n')
            elif how == 'close':
                self.end_headers()
                self.wfile.write(body)
            else:
                self.send_header('Content-Length', str(len(body)))
                self.end_headers()
                self.wfile.write(body if cut is None else body[:cut])
            self.wfile.flush()
        except OSError:
            pass


class Httpd(http.server.ThreadingHTTPServer):
    daemon_threads = True

    def handle_error(self, *args):
        pass


class Server(object):
    def __init__(self):
        self.lock = threading.Lock()
        self.routes = {}
        self.requests = []
        self.httpd = Httpd(('127.0.0.1', 0), Handler)
        self.httpd.owner = self
        self.base = 'http://127.0.0.1:%d' % self.httpd.server_address[1]
        threading.Thread(target=self.httpd.serve_forever, kwargs={
            'poll_interval': 0.05}, daemon=True).start()

    def reset(self):
        with self.lock:
            self.routes = {}
            self.requests = []

    def set(self, path, **answer):
        """path: starts with a slash, quoted"""
        with self.lock:
            self.routes[path] = answer

    def tree(self, top, base):
        """Serve the files below a directory."""
        import os
        for parent, _, files in os.walk(os.fsencode(base)):
            for name in files:
                p = os.path.join(parent, name)
                rel = os.path.relpath(p, os.fsencode(base))
                with open(p, 'rb') as f:
                    self.set(top + '/' + urllib.parse.quote(rel),
                             body=f.read())

    def taken(self):
        """Paths requested since the last time"""
        with self.lock:
            out, self.requests = self.requests, []
        return out


def server(ctx):
    """The server of this shard."""
    if 'web' not in ctx.store:
        ctx.store['web'] = Server()
    return ctx.store['web']
