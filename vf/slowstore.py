"""An in-memory zarr store whose chunk writes are slow: a read-modify-write of
one chunk by two threads then loses one of the updates."""
import threading
import time
from collections.abc import MutableMapping


class SlowStore(MutableMapping):
    def __init__(self):
        self.d = {}
        self.slow = True
        self.lock = threading.Lock()

    def __getitem__(self, k):
        with self.lock:
            v = self.d[k]
        if self.slow and k.split("/")[-1][0].isdigit():
            time.sleep(0.005)
        return v

    def __setitem__(self, k, v):
        if self.slow and k.split("/")[-1][0].isdigit():
            time.sleep(0.01)
        with self.lock:
            self.d[k] = bytes(v) if not isinstance(v, bytes) else v

    def __delitem__(self, k):
        with self.lock:
            del self.d[k]

    def __iter__(self):
        with self.lock:
            return iter(list(self.d))

    def __len__(self):
        return len(self.d)
