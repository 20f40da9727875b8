"""Worker side: bookkeeping of what the monitors observe."""
import faulthandler
import hashlib
import json
import mmap
import os
import random
import resource
import sys
import time
import traceback

MAXSIG = 200000


class W:
    def __init__(self):
        with open(sys.argv[1]) as f:
            c = json.load(f)
        self.cfg = c
        self.args = c["args"]
        self.tier = c["tier"]
        self.seed = c["seed"]
        self.scratch = c["scratch"]
        self.build = c["build"]
        self.san = c["flavour"] == "san"
        self.idx = c["idx"]
        self.rng = random.Random("%s/%s/%s/%s" % (self.seed, c["idx"], sorted(self.args.items()), self.tier))
        self.events = {}
        self.cases = 0
        self.sigs = set()
        self.samples = []
        self.nviol = 0
        self.viol_keys = {}
        self._fd = os.open(c["out"], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        with open(c["beat"], "wb") as f:
            f.write(b"\0" * 8192)
        self._bf = open(c["beat"], "r+b")
        self._mm = mmap.mmap(self._bf.fileno(), 8192)
        self.t0 = time.monotonic()
        self.budget = float(self.args.get("budget", 1e9))

    # -- progress
    def time_left(self):
        return self.budget - (time.monotonic() - self.t0)

    def more(self, i, n):
        """Continue a loop of n cases?  The time budget only cuts runs short."""
        return i < n and (i < 3 or self.time_left() > 0)

    def beat(self, text):
        b = text.encode("utf-8", "replace")[:8000] + b"\0"
        self._mm[:len(b)] = b

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def case(self, sig=None, sample=None):
        self.cases += 1
        if sig is not None and len(self.sigs) < MAXSIG:
            self.sigs.add(int.from_bytes(hashlib.blake2b(repr(sig).encode("utf-8", "replace"), digest_size=6).digest(), "big"))
        if sample is not None and len(self.samples) < 4:
            self.samples.append(sample)

    def write(self, rec):
        os.write(self._fd, (json.dumps(rec, default=str) + "\n").encode("utf-8", "replace"))

    def violate(self, key, msg, data=None):
        n = self.viol_keys.get(key, 0)
        self.viol_keys[key] = n + 1
        if n == 0 and len(self.viol_keys) <= 20:
            self.write({"t": "viol", "key": key, "msg": msg[:6000], "data": data})
        self.nviol += 1
        if self.nviol > 200:
            self.finish()

    def error(self, msg):
        self.write({"t": "error", "msg": msg[:4000]})

    def note(self, msg):
        self.write({"t": "note", "msg": msg[:4000]})

    def finish(self, finished=True):
        self.write({"t": "summary", "events": self.events, "cases": self.cases,
                    "sigs": list(self.sigs), "samples": self.samples, "finished": finished})
        os._exit(0)


def main(fn):
    w = W()
    faulthandler.enable()
    if not w.san:
        # No workload comes near this; what runs away ends with an error.
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import guppy
    if not guppy.__file__.startswith(w.build):
        w.error("wrong guppy imported: " + guppy.__file__)
        w.finish(False)
    try:
        fn(w)
    except MemoryError:
        w.violate("memory", "6 GB of memory do not suffice\n" + traceback.format_exc()[-3000:])
        w.finish()
    except BaseException as e:
        tb = traceback.format_exc()
        frames = traceback.extract_tb(e.__traceback__)
        # An exception coming out of the code under test is a finding; one that
        # originates in the harness is an error of the harness.
        last = frames[-1] if frames else None
        in_guppy = [f for f in frames if f.filename.startswith(w.build)]
        if in_guppy:
            f = in_guppy[-1]
            w.violate("exception:%s:%s:%s" % (type(e).__name__, os.path.basename(f.filename), f.name),
                      "unexpected exception from the code under test\n" + tb[-4000:])
            w.finish()
        elif last and "# sut" in (last.line or ""):
            w.violate("exception:%s:%s" % (type(e).__name__, last.name),
                      "unexpected exception from the code under test\n" + tb[-4000:])
            w.finish()
        w.error("harness exception:\n" + tb[-3500:])
        w.finish(False)
    w.finish()
