"""The real program, serving on the loopback network."""
import http.client, os, socket, subprocess, time


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


class Server:
    """hangover with some arguments; requests while it is running"""
    def __init__(self, c, args, cwd=None):
        self.port = free_port()
        self.log = open(os.path.join(c.dir("serve"), f"log{self.port}"), "w+")
        self.p = subprocess.Popen([c.program("hangover"), "-addr", f"127.0.0.1:{self.port}", *args], stdout=self.log, stderr=self.log, cwd=cwd or c.dir("serve"), start_new_session=True)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.p.kill()
        self.p.wait()
        self.log.close()

    def get(self, target, method="GET"):
        """status, headers, body; or None if there is no answer"""
        try:
            con = http.client.HTTPConnection("127.0.0.1", self.port, timeout=30)
            con.request(method, target)
            r = con.getresponse()
            body = r.read()
            con.close()
            return r.status, r.headers, body
        except (OSError, http.client.HTTPException):
            return None

    def wait(self, seconds=20):
        """waits until it listens"""
        end = time.time() + seconds
        while time.time() < end and self.p.poll() is None:
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close()
                return True
            except OSError:
                time.sleep(.005)
        return False

    def ready(self, seconds=60):
        end = time.time() + seconds
        while time.time() < end and self.p.poll() is None:
            a = self.get("/api/v1/progress")
            if a and b'"Done":true' in a[2]:
                return True
            time.sleep(.02)
        return False

    def output(self):
        self.log.flush()
        self.log.seek(0)
        return self.log.read()
