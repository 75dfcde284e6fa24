"""A simulated hdfstream server and the network in front of it.

The client is the real hdfstream package on the real requests and urllib3 response
classes; only HTTPAdapter.send is replaced, so nothing leaves the process. The server
answers from files read into memory when it starts.

A fault is {"at": n-th request after arming, "kind": ..., "x": fraction, "count": how often}.
"""

import gzip
import io

import h5py
import msgpack
import numpy as np

BASE = "http://sim.invalid/hdfstream"
KINDS = ["refused", "timeout", "reset", "status500", "status503_html", "status404", "status401", "status429", "truncated", "cut", "midreset", "stalled_body", "bad_gzip"]
BENIGN = ["chunks", "delay", "gzip", "big_bins"]


def rand_fault(rng, nmax=40):
    kind = rng.choice(KINDS * 2 + BENIGN)
    return {"at": rng.randrange(rng.choice([1, 2, 4, 12, nmax])), "kind": kind, "x": round(rng.random(), 4), "count": rng.choice([1, 1, 1, 2, 1000])}


def benign(fired):
    return all(f["kind"] in BENIGN for f in fired)


# -- the wire format -------------------------------------------------------------

def enc_array(a, big=False):
    a = np.asarray(a)
    if a.dtype.kind == "O" or a.dtype.kind == "U":
        return {"vlen": True, "shape": list(a.shape), "data": [x.decode() if isinstance(x, bytes) else str(x) for x in a.reshape(-1)]}
    buf = np.ascontiguousarray(a).tobytes()
    k = max(1, len(buf) // 3) if big else max(1, len(buf))
    bins = [buf[i:i + k] for i in range(0, len(buf), k)]
    return {"nd": True, "type": a.dtype.str, "kind": b"", "shape": list(a.shape), "nbytes": len(buf), "data": bins}


class Tree:
    """One HDF5 file, in memory."""

    def __init__(self, path):
        self.nodes = {}
        with h5py.File(path, "r") as f:
            self.walk(f, "/")

    @staticmethod
    def attrs(o):
        return {k: np.asarray(v) for k, v in o.attrs.items()}

    def walk(self, g, name):
        members = []
        for k in g.keys():
            p = name + k if name == "/" else name + "/" + k
            link = g.get(k, getlink=True)
            members.append(k)
            if isinstance(link, h5py.SoftLink):
                self.nodes[p] = ("link", link.path)
                continue
            o = g[k]
            if isinstance(o, h5py.Group):
                self.walk(o, p)
            else:
                data = o[()]
                self.nodes[p] = ("dataset", self.attrs(o), np.asarray(data), o.dtype)
        self.nodes[name] = ("group", self.attrs(g), members)


class Server:
    def __init__(self):
        self.trees = {}
        self.requests = 0
        self.bytes = 0
        self.log = []          # (path, object, slice) of every data request

    def publish(self, vpath, path):
        self.trees[vpath.strip("/")] = Tree(path)

    def listing(self, d):
        d = d.strip("/")
        pre = d + "/" if d else ""
        files = {p[len(pre):]: {"type": "application/x-hdf5", "size": 1000, "last_modified": 1} for p in self.trees if p.startswith(pre) and "/" not in p[len(pre):]}
        dirs = {p[len(pre):].split("/")[0]: None for p in self.trees if p.startswith(pre) and "/" in p[len(pre):]}
        return {"type": "directory", "size": 0, "files": files, "directories": {k: None for k in dirs}}

    def answer(self, path, body, big=False):
        """(status, object to pack)"""
        path = path.strip("/")
        if path not in self.trees:
            if not path or any(p.startswith(path + "/") for p in self.trees):
                return 200, self.listing(path)
            return 404, {"error": f"Not found: {path}"}
        if not body or "object" not in body:
            return 200, {"type": "application/x-hdf5", "size": 1000, "last_modified": 1}
        tree = self.trees[path]
        name = "/" + body["object"].strip("/")
        if name not in tree.nodes:
            return 404, {"error": f"No such object: {name}"}
        if "slice" in body:
            self.log.append((path, name, body["slice"]))
            return self.slice(tree, name, body["slice"], big)
        return 200, self.obj(tree, name, body.get("data_size_limit", 0), body.get("max_depth", 0), big)

    def obj(self, tree, name, limit, depth, big):
        n = tree.nodes[name]
        if n[0] == "link":
            return {"hdf5_object": "soft_link", "target": n[1]}
        attrs = {k: enc_array(v) for k, v in n[1].items()}
        if n[0] == "dataset":
            a = n[2]
            out = {"hdf5_object": "dataset", "attributes": attrs, "type": n[3].str, "kind": n[3].kind, "shape": list(a.shape)}
            if a.nbytes <= limit:
                out["data"] = enc_array(a, big)
            return out
        mem = {}
        for k in n[2]:
            p = name + k if name == "/" else name + "/" + k
            deep = depth > 0 or tree.nodes[p][0] == "link"
            mem[k] = self.obj(tree, p, limit, depth - 1, big) if deep else None
        return {"hdf5_object": "group", "attributes": attrs, "members": mem}

    def slice(self, tree, name, sl, big):
        n = tree.nodes[name]
        if n[0] != "dataset":
            return 400, {"error": "not a dataset"}
        a = n[2]
        if len(sl) != a.ndim:
            return 400, {"error": f"slice has {len(sl)} dimensions, dataset has {a.ndim}"}
        if not sl:
            return 200, enc_array(a, big)
        first, rest = sl[0], sl[1:]
        starts, counts = first
        many = isinstance(starts, list)
        if not many:
            starts, counts = [starts], [counts]
        if len(starts) != len(counts):
            return 400, {"error": "bad slice"}
        end = 0
        for s, c in zip(starts, counts):
            if s < 0 or c < 0 or s + c > a.shape[0]:
                return 400, {"error": "slice is out of range"}
            if many and s < end:
                return 400, {"error": "slices must be in ascending order and not overlap"}
            end = s + c
        key = tuple(np.s_[s:s + c] for s, c in rest)
        for (s, c), m in zip(rest, a.shape[1:]):
            if s < 0 or c < 0 or s + c > m:
                return 400, {"error": "slice is out of range"}
        parts = [a[(np.s_[s:s + c], *key)] for s, c in zip(starts, counts)]
        return 200, enc_array(np.concatenate(parts).astype(a.dtype) if parts else a[:0], big)


# -- the network --------------------------------------------------------------------

class Body(io.RawIOBase):
    """What arrives on the socket: the bytes, in pieces, possibly ending badly."""

    def __init__(self, net, data, piece=None, error=None, delay=0):
        super().__init__()
        self.net, self.data, self.pos, self.piece, self.error, self.delay = net, data, 0, piece, error, delay

    def readable(self):
        return True

    def readinto(self, b):
        n = len(b) if self.piece is None else min(len(b), self.piece)
        chunk = self.data[self.pos:self.pos + n]
        if not chunk and self.error is not None:
            raise self.error
        self.pos += len(chunk)
        self.net.clock += self.delay
        b[:len(chunk)] = chunk
        return len(chunk)


class Net:
    def __init__(self, ctx, server):
        self.ctx, self.server = ctx, server
        self.faults, self.fired, self.seen = [], [], 0
        self.clock = 0.0
        self.total = 0

    def arm(self, faults):
        self.faults, self.fired, self.seen = [dict(f) for f in faults], [], 0

    def disarm(self):
        fired, self.fired, self.faults = self.fired, [], []
        return fired

    def pick(self):
        for f in self.faults:
            if f["at"] <= self.seen < f["at"] + f["count"]:
                return f
        return None

    def send(self, adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        import requests
        from urllib3.response import HTTPResponse
        self.total += 1
        f = self.pick()
        self.seen += 1
        self.clock += 0.01
        kind = f["kind"] if f else None
        if f:
            self.fired.append(f)
            self.ctx.faults["net_" + kind] += 1
        path = request.url.split("/hdfstream/msgpack", 1)[1].lstrip("/")
        body = msgpack.unpackb(request.body) if request.body else None
        self.ctx.ev("http", request.method, path, (body or {}).get("object"), kind)
        if kind in ("refused", "reset"):
            raise requests.exceptions.ConnectionError(f"simulated: {kind}", request=request)
        if kind == "timeout":
            self.clock += 60
            raise requests.exceptions.ReadTimeout("simulated: read timed out", request=request)
        if request.method == "GET":
            body = None
        from urllib.parse import unquote
        status, obj = self.server.answer(unquote(path), body, big=kind == "big_bins")
        headers = {"Content-Type": "application/x-msgpack"}
        if kind and kind.startswith("status"):
            status = int(kind[6:9])
            data = b"<html><body>proxy error</body></html>" if "html" in kind else msgpack.packb({"error": f"simulated {status}"})
        else:
            data = msgpack.packb(obj)
        piece = error = None
        delay = 0
        length = len(data)
        if kind == "chunks":
            piece = 1 + int(f["x"] * 9)
        elif kind == "delay":
            delay = 1 + 1000 * f["x"]
        elif kind == "gzip":
            data = gzip.compress(data)
            length = len(data)
            headers["Content-Encoding"] = "gzip"
        elif kind == "bad_gzip":
            data = gzip.compress(data)
            data = data[:max(1, int(f["x"] * (len(data) - 1)))]
            length = None
            headers["Content-Encoding"] = "gzip"
        elif kind in ("truncated", "cut", "midreset", "stalled_body"):
            data = data[:int(f["x"] * len(data))]
            if kind == "cut":           # closed early, and the length was never announced
                length = None
            elif kind == "midreset":
                error = ConnectionResetError(104, "simulated: connection reset by peer")
            elif kind == "stalled_body":
                import socket
                error = socket.timeout("simulated: timed out")
        if length is not None and kind != "chunks":
            headers["Content-Length"] = str(length)
        raw = HTTPResponse(body=Body(self, data, piece, error, delay), headers=headers, status=status, reason="", preload_content=False, decode_content=False,
                           enforce_content_length=True, request_method=request.method)
        self.server.requests += 1
        self.server.bytes += len(data)
        return adapter.build_response(request, raw)


def install(net):
    """Route every request of this process to the simulated network."""
    import hdfstream
    from hdfstream.connection import Connection
    from requests.adapters import HTTPAdapter
    Connection._cache.clear()
    hdfstream.disable_progress(True)

    class NoConfig:
        @staticmethod
        def resolve_alias(name, user):
            return name, user, False
    hdfstream.connection.get_config = NoConfig
    HTTPAdapter.send = lambda self, request, **kw: net.send(self, request, **kw)
