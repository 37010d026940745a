"""A small LSP client over the server's pipes."""
import json, os, queue, subprocess, sys, threading, time


class Client:
    def __init__(self, caps=None, init=True):
        self.p = subprocess.Popen([sys.argv[1]], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=dict(os.environ, RUST_BACKTRACE='0'))
        self.q, self.ids = queue.Queue(), 0
        self.log = []
        threading.Thread(target=self._read, daemon=True).start()
        if init:
            self.init = self.request('initialize', {'processId': None, 'rootUri': None, 'capabilities': caps or {}})
            self.note('initialized', {})

    def _read(self):
        f = self.p.stdout
        while True:
            size = None
            while True:
                line = f.readline()
                if not line:
                    self.q.put(None)
                    return
                if line == b'\r\n':
                    break
                if line.lower().startswith(b'content-length:'):
                    size = int(line.split(b':')[1])
            self.q.put(json.loads(f.read(size)))

    def send(self, m):
        b = json.dumps(dict(m, jsonrpc='2.0')).encode()
        self.p.stdin.write(b'Content-Length: %d\r\n\r\n' % len(b) + b)
        self.p.stdin.flush()

    def note(self, method, params):
        self.send({'method': method, 'params': params})

    def recv(self, timeout=20):
        try:
            m = self.q.get(timeout=timeout)
        except queue.Empty:
            return 'timeout'
        if m is not None:
            self.log.append(m)
        return m

    def request(self, method, params, id=None, timeout=20):
        if id is None:
            self.ids += 1
            id = self.ids
        self.send({'id': id, 'method': method, 'params': params})
        while True:
            m = self.recv(timeout)
            if m in (None, 'timeout'):
                return None
            if 'method' not in m and m.get('id') == id:
                return m

    def open(self, uri, version, text):
        self.note('textDocument/didOpen', {'textDocument': {'uri': uri, 'languageId': 'move', 'version': version, 'text': text}})

    def change(self, uri, version, changes):
        self.note('textDocument/didChange', {'textDocument': {'uri': uri, 'version': version},
                                             'contentChanges': [c if isinstance(c, dict) else {'text': c} for c in changes]})

    def close(self, uri):
        self.note('textDocument/didClose', {'textDocument': {'uri': uri}})

    def settle(self, quiet=1.0):
        """Everything received until nothing came for a while."""
        out = []
        while True:
            m = self.recv(quiet)
            if m in (None, 'timeout'):
                return out
            out.append(m)

    def publications(self, uri):
        return [m['params'] for m in self.log
                if m.get('method') == 'textDocument/publishDiagnostics' and m['params']['uri'] == uri]

    def kill(self):
        self.p.kill()


def check(ok, what):
    if not ok:
        print('WRONG:', what)
        sys.exit(1)
