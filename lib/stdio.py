"""The built server as a child process, spoken to over its pipes."""
import json, os, queue, subprocess, threading, time


class Server:
    def __init__(self, exe, cwd, env=None):
        e = dict(os.environ, RUST_BACKTRACE='0')
        for v in ('RA_LOG_FILE', 'MOVE_LS_LOG', 'CHALK_DEBUG'):
            e.pop(v, None)
        e.update(env or {})
        self.p = subprocess.Popen([exe], cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE)
        self.q = queue.Queue()
        self.err = b''
        threading.Thread(target=self._read, daemon=True).start()
        threading.Thread(target=self._read_err, daemon=True).start()

    def _read_err(self):
        try:
            self.err = self.p.stderr.read()
        except ValueError:
            pass

    def _read(self):
        try:
            f = self.p.stdout
            while True:
                size = None
                while True:
                    line = f.readline()
                    if not line:
                        raise EOFError
                    if line == b'\r\n':
                        break
                    if line.lower().startswith(b'content-length:'):
                        size = int(line.split(b':')[1])
                    elif not line.lower().startswith(b'content-type:'):
                        raise ValueError(line)   # the output is for messages only
                body = f.read(size)
                self.q.put(json.loads(body))
        except (EOFError, ValueError, TypeError, OSError):
            self.q.put(None)

    def send(self, m):
        body = json.dumps(dict({'jsonrpc': '2.0'}, **m)).encode()
        try:
            self.p.stdin.write(b'Content-Length: %d\r\n\r\n' % len(body) + body)
            self.p.stdin.flush()
            return True
        except (BrokenPipeError, OSError):
            return False

    def receive(self, timeout=15):
        """The next message, None at the end of the output."""
        try:
            return self.q.get(timeout=timeout)
        except queue.Empty:
            raise TimeoutError

    def vanish(self, output_too=False):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        if output_too:
            try:
                self.p.stdout.close()
            except (OSError, ValueError):
                pass

    def wait(self, timeout=15):
        try:
            return self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            return None

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except (OSError, ValueError):
                pass
