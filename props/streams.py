"""Harnesses over decoder sessions, shared by C04 (synchronous) and C05 (asynchronous).

A reader says how the decoder is driven: reader.grains(...) is the list of grains (or the exception) a session
yields, reader.whole(...) what a GSFDecoder used as a context manager shows."""
from spec import gsf as S


class Shown(object):
    """What a GSFDecoder showed while it was open."""


class Sync(object):
    name = "sync"

    def grains(self, c, data, pos=0, major=9, concat=True, **kw):
        import mediagrains.gsf as G
        from mediagrains.grains import GrainFactory
        f = c.file(data, pos)
        s = G.GSFSyncDecoderSession(GrainFactory, f, support_concatenation=concat)
        s.major = major
        return f, iter(s.grains(**kw))

    def until(self, c, data, pos=0, **kw):
        """The grains delivered, and the exception that ended the stream, if any."""
        import mediagrains.gsf as G
        from mediagrains.grains import GrainFactory
        out = []
        s = G.GSFSyncDecoderSession(GrainFactory, c.file(data, pos))
        s.major = 9
        try:
            for x in s.grains(loading_mode=G.GrainDataLoadingMode.LOAD_IMMEDIATELY, **kw):
                out.append(x)
        except (G.GSFError, EOFError) as e:
            return out, e
        return out, None

    def whole(self, c, data, **kw):
        import mediagrains.gsf as G
        f, r = c.file(data), Shown()
        with G.GSFDecoder(file_data=f, **kw) as dec:
            r.before, r.tell = dec.file_headers, f.tell()
            r.grains = iter(list(dec.grains(loading_mode=G.GrainDataLoadingMode.LOAD_IMMEDIATELY)))
            r.after, r.major, r.minor = dec.file_headers, dec.major, dec.minor
        return r


def async_file(c, kind, data, pos=0):
    """An AsyncBinaryIO over the data, positioned at pos when opened, and the file beneath it."""
    import mediagrains.utils.asyncbinaryio as A
    if kind == "AsyncBytesIO":
        return A.AsyncBytesIO(data), None
    if kind == "AsyncStreamWrapper":
        return A.AsyncStreamWrapper(c.stream_reader(data[pos:])), None
    f = c.file(data, pos)
    return getattr(A, kind)(f), f


class Async(object):
    def __init__(self, kind):
        self.name = self.kind = kind

    def grains(self, c, data, pos=0, major=9, concat=True, **kw):
        import mediagrains.gsf as G
        from mediagrains.grains import GrainFactory
        out = []

        async def go():
            a, _ = async_file(c, self.kind, data, pos)
            async with a as f:
                if self.kind == "AsyncBytesIO":
                    f.seek(pos)
                s = G.GSFAsyncDecoderSession(GrainFactory, f, False, support_concatenation=concat)
                s.major = major
                async for x in s.grains(**kw):
                    out.append(x)
            return f
        return c.run_coro(go()), iter(out)

    def until(self, c, data, pos=0, **kw):
        import mediagrains.gsf as G
        from mediagrains.grains import GrainFactory
        out = []

        async def go():
            a, _ = async_file(c, self.kind, data, pos)
            async with a as f:
                if self.kind == "AsyncBytesIO":
                    f.seek(pos)
                s = G.GSFAsyncDecoderSession(GrainFactory, f, False)
                s.major = 9
                try:
                    async for x in s.grains(loading_mode=G.GrainDataLoadingMode.LOAD_IMMEDIATELY, **kw):
                        out.append(x)
                except (G.GSFError, EOFError) as e:
                    return e
            return None
        return out, c.run_coro(go())

    def whole(self, c, data, **kw):
        import mediagrains.gsf as G
        r = Shown()

        async def go():
            a, _ = async_file(c, self.kind, data)
            async with G.GSFDecoder(file_data=a, **kw) as dec:
                r.before, r.tell = dec.file_headers, dec.file_data.tell()
                r.grains = []
                async for x in dec.grains(loading_mode=G.GrainDataLoadingMode.LOAD_IMMEDIATELY):
                    r.grains.append(x)
                r.grains = iter(r.grains)
                r.after, r.major, r.minor = dec.file_headers, dec.major, dec.minor
        c.run_coro(go())
        return r


def unknown(c, name, but=()):
    """A block of a kind the reader of its parent does not know, with any contents."""
    t = c.text(name + ".tag", 4)
    for b in but + ("SSBB",):
        c.assume(c.Not(t == b))
    return S.block(c, S.padded(c, t, 4), c.bytes(name + ".body", c.size(name + ".len", 0, (1 << 32) - 9)))


def expect(c, it, items, name):
    """The iterator yields exactly the items (local id, description), in order."""
    for i, (l, d) in enumerate(items):
        got = next(it, None)
        c.prove(got is not None, "%s: grain %d is yielded" % (name, i))
        g, gl = got
        c.prove(gl == l, "%s: local id %d" % (name, i))
        S.check_grain(c, g, d, "%s: grain %d" % (name, i))
    c.prove(next(it, None) is None, name + ": no other grain")


def select(reader, n, kinds):
    """Only grains of the chosen segments are yielded, all of them, in file order."""
    def h(c):
        import mediagrains.gsf as G
        ds = [S.draw(c, "g%d." % i, k, 9, timelabels=False, parts=False) for i, k in enumerate(kinds)]
        ls = [c.int("l%d" % i, 0, 65535) for i in range(len(kinds))]
        ids = [c.int("id%d" % i, 0, 65535) for i in range(n)]
        pre = c.bytes("pre", c.size("npre"))
        b = pre
        for d, l in zip(ds, ls):
            b = b + S.grai(c, d, l, 9)
        f, it = reader.grains(c, b + S.TERMINATOR, c.blen(pre), local_ids=ids,
                              loading_mode=G.GrainDataLoadingMode.LOAD_IMMEDIATELY)
        want = [(l, d) for d, l in zip(ds, ls) if bool(c.Or(*[l == i for i in ids]))]
        expect(c, it, want, "selection")
        c.cover("decoded")
    return h


def unknown_blocks(reader, where, kind):
    """Blocks of unknown kinds are skipped wherever they are allowed."""
    def h(c):
        import mediagrains.gsf as G
        d = S.draw(c, "g.", kind, 9, timelabels=False, parts=False)
        e = S.draw(c, "h.", "empty", 9, timelabels=False)
        l, m = c.int("l", 0, 65535), c.int("m", 0, 65535)
        a, b = S.grai(c, d, l, 9), S.grai(c, e, m, 9)
        if where == "before":
            data = unknown(c, "u", ("grai",)) + a + b
        elif where == "between":
            data = a + unknown(c, "u", ("grai",)) + unknown(c, "v", ("grai",)) + b
        elif where == "short":
            t = c.text("short.tag", 4)
            for x in ("SSBB", "grai"):
                c.assume(c.Not(t == x))
            data = a + S.padded(c, t, 4) + S.u(c, c.int("short.size", 0, 7), 4) + b
        elif where == "in grai":
            x = unknown(c, "u", ("grdt",))
            data = S.block(c, b"grai", S.u(c, l, 2) + S.gbhd(c, d, 9) + x + S.block(c, b"grdt", d.data)) + b
        elif where == "end of grai":
            x = unknown(c, "u")
            data = S.block(c, b"grai", S.u(c, l, 2) + S.gbhd(c, d, 9) + S.block(c, b"grdt", d.data) + x) + b
        elif where == "in gbhd":
            x = unknown(c, "u", ("tils", "vghd", "cghd", "aghd", "cahd", "eghd"))
            data = S.block(c, b"grai", S.u(c, l, 2) + S.gbhd(c, d, 9, x) + S.block(c, b"grdt", d.data)) + b
        elif where == "no grdt":
            c.assume(d.dlen == 0)
            data = S.block(c, b"grai", S.u(c, l, 2) + S.gbhd(c, d, 9)) + b
        elif where == "instead of grdt":
            c.assume(d.dlen == 0)
            data = S.block(c, b"grai", S.u(c, l, 2) + S.gbhd(c, d, 9) + unknown(c, "u", ("grdt",))) + b
        elif where == "end":
            data = a + b + unknown(c, "u", ("grai",))
        f, it = reader.grains(c, data + (b"" if where == "end" else S.TERMINATOR),
                              loading_mode=G.GrainDataLoadingMode.LOAD_IMMEDIATELY)
        expect(c, it, [(l, d), (m, e)], "grains")
        c.cover("decoded")
    return h


def unknown_in_head(reader, where):
    def h(c):
        import mediagrains.gsf as G
        fid, created = c.uuid("id"), c.datetime("created")
        k, v = c.text("key", 65535), c.text("value", 65535)
        k2, v2 = c.text("skey", 65535), c.text("svalue", 65535)
        lid, sid, count = c.int("local", 0, 65535), c.uuid("sid"), c.int("count", -1, (1 << 63) - 1)
        t, t2 = S.tag_block(c, k, v), S.tag_block(c, k2, v2)
        x = unknown(c, "u", ("segm", "tag ", "flow", "tag"))
        segm = S.segm_block(c, lid, sid, count, x + t2 if where == "in segm" else t2)
        y = unknown(c, "w", ("head",)) if where == "before head" else b""
        body = {"first": x + segm + t, "middle": segm + x + t, "last": segm + t + x}.get(where, segm + t)
        b = S.file_header(c, c.int("major", 7, 9), c.int("minor", 0, 65535)) + y + S.head_block(c, fid, created, body, b"")
        r = reader.whole(c, b + S.TERMINATOR)
        fh = r.before
        c.prove(c.And(fh["id"] == fid, fh["created"] == created), "file id and creation time")
        c.prove(len(fh["tags"]) == 1 and len(fh["segments"]) == 1, "one tag, one segment")
        c.prove(c.And(fh["tags"][0][0] == k, fh["tags"][0][1] == v), "tag")
        s = fh["segments"][0]
        c.prove(c.And(s["id"] == sid, s["local_id"] == lid, s["count"] == count), "segment")
        c.prove(len(s["tags"]) == 1, "segment tag")
        c.prove(c.And(s["tags"][0][0] == k2, s["tags"][0][1] == v2), "segment tag contents")
        c.prove(r.tell == c.blen(b), "reader left at the end of the head block")
        c.cover("decoded")
    return h


def concat(reader, support, first, second, terminated):
    """Concatenated files: all grains, each decoded by its own file's version; or only the first file's."""
    def h(c):
        import mediagrains.gsf as G
        d = S.draw(c, "g.", "empty", first, timelabels=False)
        e = S.draw(c, "h.", "audio", second, timelabels=False)
        l, m = c.int("l", 0, 65535), c.int("m", 0, 65535)
        fid, gid, created = c.uuid("id"), c.uuid("id2"), c.datetime("created")
        k, v = c.text("key", 65535), c.text("value", 65535)
        tag = S.tag_block(c, k, v)
        one = S.file_header(c, first, 0) + S.head_block(c, fid, created, b"", b"") + S.grai(c, d, l, first)
        two = S.file_header(c, second, 1) + S.head_block(c, gid, created, b"", tag) + S.grai(c, e, m, second)
        r = reader.whole(c, one + (S.TERMINATOR if terminated else b"") + two + S.TERMINATOR,
                         support_concatenation=support)
        c.prove(r.before["id"] == fid, "first header")
        if support:
            expect(c, r.grains, [(l, d), (m, e)], "grains")
            c.prove(r.after["id"] == gid, "second header")
            c.prove(c.And(r.major == second, r.minor == 1), "second version")
            c.prove(c.And(*[x == y for x, y in zip(r.after["tags"][0], (k, v))]), "second tags")
        else:
            expect(c, r.grains, [(l, d)], "grains")
            c.prove(r.after["id"] == fid, "still the first header")
        c.cover("decoded")
    return h


def after_terminator(reader, support):
    """Grains after a terminator belong to the stream only if concatenation is supported."""
    def h(c):
        import mediagrains.gsf as G
        d, e = (S.draw(c, p, "empty", 9, timelabels=False) for p in ("g.", "h."))
        l, m = c.int("l", 0, 65535), c.int("m", 0, 65535)
        a, b = S.grai(c, d, l, 9), S.grai(c, e, m, 9)
        f, it = reader.grains(c, a + S.TERMINATOR + b + S.TERMINATOR, 0, 9, support,
                              loading_mode=G.GrainDataLoadingMode.LOAD_IMMEDIATELY)
        expect(c, it, [(l, d), (m, e)] if support else [(l, d)], "grains")
        if not support:
            c.prove(f.tell() == c.blen(a) + 8, "nothing beyond the terminator is read")
        c.cover("decoded")
    return h
