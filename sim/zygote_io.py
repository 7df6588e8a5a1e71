import os
import pickle
import struct


def read_exact(fd, n):
    parts = []
    while n:
        b = os.read(fd, min(n, 1 << 20))
        if not b:
            return None
        parts.append(b)
        n -= len(b)
    return b"".join(parts)


def recv(fd):
    h = read_exact(fd, 8)
    if h is None:
        return None
    b = read_exact(fd, struct.unpack("<q", h)[0])
    return None if b is None else pickle.loads(b)


def send(fd, obj):
    b = pickle.dumps(obj, protocol=5)
    b = struct.pack("<q", len(b)) + b
    v = memoryview(b)
    while v:
        n = os.write(fd, v)
        v = v[n:]
