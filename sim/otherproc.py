"""A second process that restores saved objects.  Started with its own hash seed; can be killed and restarted."""
import base64
import json
import os
import subprocess
import sys

from . import boot

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Other:
    def __init__(self):
        self.p = None
        self.pid = None
        self.starts = 0

    def start(self):
        if self.p is not None and self.pid == os.getpid() and self.p.poll() is None:
            return
        env = dict(os.environ, PYTHONHASHSEED=str(7 + self.starts), STOQ_REPO=boot.REPO)
        self.p = subprocess.Popen([sys.executable, "-B", "-m", "sim.otherproc"], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, cwd=ROOT, env=env, text=True)
        self.pid = os.getpid()
        self.starts += 1

    def ask(self, req):
        self.start()
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the second process died")
        return json.loads(line)

    def stop(self):
        if self.p is not None and self.pid == os.getpid():
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
        self.p = None


OTHER = Other()


def serve():
    import pickle
    from .observe import apply, observe
    from .work import result_value
    for line in sys.stdin:
        req = json.loads(line)
        try:
            obj = pickle.loads(base64.b64decode(req["raw"]))
            n = req["n"]
            ans = {}
            seq = obj
            if req["result"]:
                seq = obj.compiled_sequence
                ans["value"] = result_value(obj, n)
                ans["elapsed"] = float(obj.total_elapsed_time)
            ans["raw"] = base64.b64encode(pickle.dumps(obj)).decode()
            ans["seen"] = observe(pickle.loads(base64.b64decode(ans["raw"])) if not req["result"] else
                                  pickle.loads(base64.b64decode(ans["raw"])).compiled_sequence, n)
            ans["after"] = apply(seq, req["script"], n)
        except Exception as e:  # noqa: B902 - reported to the caller as a failed restore
            ans = {"error": "%s: %s" % (type(e).__name__, e)}
        sys.stdout.write(json.dumps(ans) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    serve()
