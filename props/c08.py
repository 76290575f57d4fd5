"""C08: asynchronous binary files behave as the binary files they stand for."""
import io
from pyvc.prop import Harness

CONTRACTS = []
A = "mediagrains.utils.asyncbinaryio:"
FNS = {"AsyncBytesIO": tuple(A + "OpenAsyncBytesIO." + n for n in (
           "__init__", "__open__", "readinto", "readall", "write", "truncate", "tell", "seek", "getbuffer", "getvalue")) + (
           A + "OpenAsyncBinaryIO.read", A + "AsyncBytesIO.getvalue", A + "AsyncBytesIO.value"),
       "AsyncFileWrapper": tuple(A + "OpenAsyncFileWrapper." + n for n in (
           "read", "readinto", "readall", "write", "truncate", "tell", "seek", "seekable")),
       "AsyncBytesIOWrapper": tuple(A + "OpenAsyncBytesIOWrapper." + n for n in (
           "read", "readinto", "readall", "write", "truncate", "tell", "seek", "seekable")),
       "AsyncStreamWrapper": tuple(A + "OpenAsyncStreamWrapper." + n for n in (
           "_read", "_align_pos", "read", "readinto", "readall", "write", "tell", "seek", "truncate"))}


def make(c, kind, content):
    import mediagrains.utils.asyncbinaryio as M
    if kind == "AsyncBytesIO":
        return M.AsyncBytesIO(content), None
    f = c.file(content)
    return getattr(M, kind)(f), f


HISTORIES = {
    "fresh": (), "moved": ("seek",), "written": ("seek", "write"), "cut and moved": ("write", "truncate", "seek"),
}
OPS = ("read", "read all", "readall", "readinto", "write", "truncate", "truncate to", "seek from here", "seek from end",
       "nothing")


def operation(kind, history, op):
    """After any such history every operation shows exactly what it shows on an ordinary binary file."""
    def h(c):
        content = c.bytes("content", c.size("ncontent"))
        ref = c.file(content)
        af, raw = make(c, kind, content)

        async def step(f, what, i):
            p = "%s%d" % (what, i)
            if what == "seek":
                pos = c.size(p)
                c.prove(f.seek(pos) == ref.seek(pos), "seek returns the position")
            elif what == "write":
                b = c.bytes(p, c.size(p + ".n"))
                c.prove(await f.write(b) == ref.write(b), "write returns the number of bytes")
            elif what in ("truncate", "truncate to"):
                if what == "truncate to" or i < 9:
                    n = c.size(p)
                    # an ordinary file shorter than n may be left alone or extended with zeros
                    c.assume(n <= c.blen(c.content(ref)))
                    c.prove(await f.truncate(n) == ref.truncate(n), "truncate returns the size")
                else:
                    c.assume(ref.tell() <= c.blen(c.content(ref)))
                    c.prove(await f.truncate() == ref.truncate(), "truncate returns the size")
            elif what == "read":
                n = c.size(p)
                want = ref.read(n)
                try:
                    got = await f.read(n)
                except EOFError:
                    c.prove(kind == "AsyncBytesIO" and c.blen(want) < n, "only a file in memory insists on the size")
                    c.prove(f.tell() == ref.tell() or bool(c.blen(want) == 0), "position after what was left")
                    ref.seek(f.tell())
                    return
                c.prove_bytes_eq(got, want, "bytes read")
            elif what == "read all":
                c.prove_bytes_eq(await f.read(), ref.read(), "bytes read")
            elif what == "readall":
                c.prove_bytes_eq(await f.readall(), ref.read(), "bytes read")
            elif what == "readinto":
                buf, n = c.zeros(c.size(p)), c.size(p)
                want = ref.read(n)
                c.prove(await f.readinto(buf) == c.blen(want), "number of bytes read")
                c.prove_bytes_eq(c.to_bytes(buf), want + c.fill(0, n - c.blen(want)), "buffer")
            elif what == "seek from here":
                d = c.int(p, -40, 1 << 40)
                c.assume(ref.tell() + d >= 0)
                c.prove(f.seek(d, io.SEEK_CUR) == ref.seek(d, io.SEEK_CUR), "seek returns the position")
            elif what == "seek from end":
                d = c.int(p, -40, 1 << 40)
                c.assume(c.blen(c.content(ref)) + d >= 0)
                c.prove(f.seek(d, io.SEEK_END) == ref.seek(d, io.SEEK_END), "seek returns the position")

        async def go():
            async with af as f:
                for i, what in enumerate(history):
                    await step(f, what, i)
                await step(f, op, 9)
                c.prove(f.tell() == ref.tell(), "position")
                c.cover("done")
                if raw is None:
                    c.prove_bytes_eq(f.getvalue(), c.content(ref), "contents")
                    c.prove_bytes_eq(c.to_bytes(f.getbuffer()), c.content(ref), "buffer contents")
                else:
                    c.prove_bytes_eq(c.content(raw), c.content(ref), "contents")
                if op in ("write", "truncate", "truncate to", "readinto") and history in ((), ("seek",)):
                    await step(f, "seek", 10)
                    await step(f, "write", 11)
                    f.seek(0)
                    c.prove_bytes_eq(await f.read(), c.content(ref), "contents after another write")
            if kind == "AsyncBytesIO":
                c.prove_bytes_eq(af.getvalue(), c.content(ref), "value of the closed file")
                c.prove_bytes_eq(af.value(), c.content(ref), "value")
        c.run_coro(go())
    return h


def extend(kind):
    """Extending a file in memory adds zeros whatever it held before."""
    def h(c):
        content = c.bytes("content", c.size("n"))
        cut, grow = c.size("cut"), c.size("grow")
        c.assume(cut <= c.blen(content))
        c.assume(grow >= cut)
        af, raw = make(c, kind, content)

        async def go():
            async with af as f:
                await f.truncate(cut)
                c.prove(await f.truncate(grow) == grow, "size")
                c.cover("done")
                want = content[:cut] + c.fill(0, grow - cut)
                c.prove_bytes_eq(f.getvalue(), want, "contents")
                f.seek(0)
                c.prove_bytes_eq(await f.read(), want, "contents read")
        c.run_coro(go())
    return h


def flags(c):
    import mediagrains.utils.asyncbinaryio as M
    f = c.file(b"")
    g = c.file(b"", 0, False)

    async def go():
        async with M.AsyncBytesIO(b"") as a, M.AsyncFileWrapper(f) as b, M.AsyncBytesIOWrapper(f) as d:
            for x in (a, b, d):
                c.prove(x.seekable() and x.seekable_forwards() and x.seekable_backwards(), "seekable")
                c.prove(x.readable() and x.writable(), "readable and writable")
            c.prove(b.getsync() is f and d.getsync() is f, "the file beneath")
        async with M.AsyncFileWrapper(g) as b, M.AsyncStreamWrapper(c.stream_reader(b"")) as s:
            c.prove(not b.seekable() and not b.seekable_forwards() and not b.seekable_backwards(), "not seekable")
            c.prove(not s.seekable() and s.seekable_forwards() and not s.seekable_backwards(), "stream: forwards only")
            c.prove(s.readable() and not s.writable(), "stream: only readable")
        c.cover("done")
    c.run_coro(go())


class Writer(object):
    def __init__(self):
        self.data, self.closed, self.drains = b"", False, 0

    def write(self, b):
        self.data = self.data + b

    async def drain(self):
        self.drains += 1

    def close(self):
        self.closed = True


SOPS = ("read", "read all", "readall", "readinto", "skip", "skip to", "backwards")


def stream_read(history, op):
    """A network stream is a file that can only be moved forwards: the position is the number of bytes passed."""
    def h(c):
        import mediagrains.utils.asyncbinaryio as M
        content = c.bytes("content", c.size("ncontent"))
        ref = c.file(content)
        passed = [0]        # a skip takes effect with the next read: it can be taken back until then

        async def step(f, what, i):
            p = "%s%d" % (what, i)
            if what == "read":
                n = c.size(p)
                c.prove_bytes_eq(await f.read(n), ref.read(n), "bytes read")
            elif what == "read all":
                c.prove_bytes_eq(await f.read(), ref.read(), "bytes read")
            elif what == "readall":
                c.prove_bytes_eq(await f.readall(), ref.read(), "bytes read")
            elif what == "readinto":
                n = c.size(p)
                buf, want = c.zeros(n), ref.read(n)
                c.prove(await f.readinto(buf) == c.blen(want), "number of bytes read")
                c.prove_bytes_eq(c.to_bytes(buf), want + c.fill(0, n - c.blen(want)), "buffer")
            elif what == "skip":
                n = c.size(p)
                c.prove(f.seek(n, io.SEEK_CUR) == ref.seek(n, io.SEEK_CUR), "seek returns the position")
            elif what == "skip to":
                n = ref.tell() + c.size(p)
                c.prove(f.seek(n) == ref.seek(n), "seek returns the position")
            elif what == "backwards":
                c.assume(passed[0] > 0)
                to = c.size(p)
                c.assume(to < passed[0])
                for a in ((to,), (to - f.tell(), io.SEEK_CUR), (0, io.SEEK_END)):
                    try:
                        f.seek(*a)
                    except io.UnsupportedOperation:
                        continue
                    c.fail("seeking backwards is refused")
            if "read" in what:
                passed[0] = ref.tell()

        async def go():
            async with M.AsyncStreamWrapper(c.stream_reader(content)) as f:
                c.prove(f.tell() == 0, "starts at 0")
                for i, what in enumerate(history):
                    await step(f, what, i)
                await step(f, op, 9)
                c.prove(f.tell() == ref.tell(), "position")
                c.cover("done")
                await step(f, "read", 10)
                c.prove(f.tell() == ref.tell(), "position after reading on")
                for call in (lambda: f.write(b"x"), lambda: f.truncate()):
                    try:
                        await call()
                    except io.UnsupportedOperation:
                        continue
                    c.fail("an input stream cannot be written or truncated")
        c.run_coro(go())
    return h


def stream_write(history):
    """A stream written to receives exactly the bytes written, with zeros for what was skipped."""
    def h(c):
        import mediagrains.utils.asyncbinaryio as M
        ref, w = c.file(b""), Writer()

        async def go():
            async with M.AsyncStreamWrapper(writer=w) as f:
                for i, what in enumerate(history):
                    p = "%s%d" % (what, i)
                    if what == "write":
                        b = c.bytes(p, c.size(p + ".n", 1))
                        c.prove(await f.write(b) == ref.write(b), "write returns the number of bytes")
                    else:
                        n = c.size(p)
                        c.prove(f.seek(n, io.SEEK_CUR) == ref.seek(n, io.SEEK_CUR), "seek returns the position")
                    c.prove(f.tell() == ref.tell(), "position")
                c.prove_bytes_eq(w.data, c.content(ref), "bytes sent")
                c.prove(w.drains == history.count("write"), "every write waits for the stream")
                c.prove(not f.readable() and f.writable(), "only writable")
                for call in (lambda: f.read(1), lambda: f.readinto(bytearray(1))):
                    try:
                        await call()
                    except io.UnsupportedOperation:
                        continue
                    c.fail("an output stream cannot be read")
            c.prove(w.closed, "closing closes the stream")
            c.cover("done")
        c.run_coro(go())
    return h


HARNESSES = [Harness("flags", flags, tuple(A + "OpenAsync%s.%s" % (k, n) for k in ("BytesIO", "FileWrapper", "StreamWrapper")
                                           for n in ("seekable", "readable", "writable")), covers=("done",))]
for kind in ("AsyncBytesIO", "AsyncFileWrapper", "AsyncBytesIOWrapper"):
    for hname, history in HISTORIES.items():
        if kind != "AsyncBytesIO" and hname not in ("fresh", "moved", "written"):
            continue
        for op in OPS:
            HARNESSES.append(Harness("%s[%s,%s]" % (kind, hname, op), operation(kind, history, op), FNS[kind],
                                     covers=("done",)))
HARNESSES.append(Harness("extend[AsyncBytesIO]", extend("AsyncBytesIO"), FNS["AsyncBytesIO"], covers=("done",)))
for hist in ((), ("read",), ("skip",), ("skip to", "read"), ("read", "skip", "skip")):
    for op in SOPS:
        HARNESSES.append(Harness("stream[%s]" % ",".join(hist + (op,)), stream_read(hist, op), FNS["AsyncStreamWrapper"],
                                 covers=("done",) if op != "backwards" or "read" in hist else ()))
for hist in (("write",), ("skip", "write"), ("write", "skip", "write"), ("write", "write", "skip", "skip", "write")):
    HARNESSES.append(Harness("stream write[%s]" % ",".join(hist), stream_write(hist), FNS["AsyncStreamWrapper"],
                             covers=("done",)))
