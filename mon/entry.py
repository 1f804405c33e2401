"""The ways of handing a text to a reader class: as a string, as one of several kinds of binary file, by path."""
import contextlib, gzip, io, os, pathlib, shutil, tempfile

FILES = ["stream", "file", "raw file", "gzip file", "pipe", "temporary file", "read-only stream"]
PATHS = ["path", "path object", "relative path", "odd path"]
STRINGS = ["string", "string with a file name"]
WAYS = STRINGS + FILES + PATHS
NAMES = ["config.txt", "config.xml", "ios.cfg", "pfsense.xml", "asa", "running-config", "a b.conf", "x.caf", "-", "größe-配置.cfg", "%s{}.txt", "UPPER.XML"]


class Reader:
    """a binary file with nothing but read()"""

    def __init__(self, data):
        self._data = data

    def read(self, n=-1):
        r, self._data = (self._data, b"") if n is None or n < 0 else (self._data[:n], self._data[n:])
        return r


@contextlib.contextmanager
def opened(how, cls, text, bom=False, name="config.txt"):
    """(function, arguments, path opened by the library or None)"""
    data = (b"\xef\xbb\xbf" if bom else b"") + (text if isinstance(text, bytes) else text.encode("utf-8"))
    if how == "string":
        yield cls.fromString, (text,), None
        return
    if how == "string with a file name":
        yield cls.fromString, (text, name), None
        return
    if how == "stream":
        yield cls.fromFile, (io.BytesIO(data),), None
        return
    if how == "read-only stream":
        yield cls.fromFile, (Reader(data),), None
        return
    if how == "pipe" and len(data) < 60000:
        r, w = os.pipe()
        os.write(w, data)
        os.close(w)
        with open(r, "rb") as f:
            yield cls.fromFile, (f,), None
        return
    d = tempfile.mkdtemp(prefix="entry-")
    try:
        if how == "odd path":
            name = "ünï " + name
        p = os.path.join(d, name)
        if how == "gzip file":
            with gzip.open(p, "wb") as f:
                f.write(data)
            with gzip.open(p, "rb") as f:
                yield cls.fromFile, (f,), None
        elif how == "temporary file":
            with tempfile.TemporaryFile(dir=d) as f:
                f.write(data)
                f.seek(0)
                yield cls.fromFile, (f,), None
        else:
            with open(p, "wb") as f:
                f.write(data)
            if how in PATHS:
                q = {"path object": pathlib.Path(p), "relative path": os.path.relpath(p)}.get(how, p)
                yield cls.fromPath, (q,), q
            else:
                with open(p, "rb", **({"buffering": 0} if how == "raw file" else {})) as f:
                    yield cls.fromFile, (f,), None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def read(call, how, cls, text, bom=False, name="config.txt", **opt):
    """call: what performs the call, e.g. mon.call"""
    with opened(how, cls, text, bom, name) as (fn, a, _):
        return call(fn, *a, **opt)
