From 39e4e43b82d4487eb571482fc9c7401b24899332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 01/52] fix: an encoder reused for a second dump describes only
 what that dump contains

Segments kept the write count, count position and active state of the previous
dump, so the header of a second file counted the grains of the first and tags
could never be added to a segment again.
---
 mediagrains/gsf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 7aff1fc..791ac06 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1773,6 +1773,7 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
                 self.file.seek(seg._count_pos)
                 self.file.write(_encode_sint(seg.get_write_count(), 8))
                 self.file.seek(curpos)
+            seg._end_dump()
 
         if self._active_dump:
             self.file.write(b"grai" +
@@ -1868,6 +1869,7 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
                 await self._open_file.write(_encode_sint(seg.get_write_count(), 8))
 
                 self._open_file.seek(curpos)
+            seg._end_dump()
 
         if self._active_dump:
             await self._open_file.write(b"grai" +
@@ -2219,6 +2221,9 @@ class GSFEncoderSegment(object):
 
     def _encode_header(self, all_at_once: bool = False) -> Tuple[bytes, int]:
         self._active_dump = True
+        # Nothing of this segment has been written to the file that starts here
+        self._write_count = 0
+        self._count_pos = -1
         data = (
             b"segm" +
             _encode_uint(self.segm_block_size, 4) +
@@ -2248,6 +2253,9 @@ class GSFEncoderSegment(object):
 
         return (data, count_pos)
 
+    def _end_dump(self):
+        self._active_dump = False
+
     def set_size_position(self, pos: int):
         self._count_pos = pos
 
-- 
2.43.0


From 840b0f3fc4bc6df21499d21e94f20653c97d9dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 02/52] fix: leaving an async decoder with grains still to be
 loaded on exit loads them

_kill_unused_lazy_loaders iterated over a dictionary from which each grain
loaded removes itself.
---
 mediagrains/gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 791ac06..9f16b43 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1096,7 +1096,7 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
 
     async def _kill_unused_lazy_loaders(self):
         self._exiting = True
-        for (key, grain) in self._unloaded_lazy_grains.items():
+        for (key, grain) in list(self._unloaded_lazy_grains.items()):
             await grain
 
     async def _load_unused_lazy_loaders(self):
-- 
2.43.0


From 6f923c977e1182e887c4ab6dd3de23a353a4447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 03/52] fix: write grains added to a segment during an
 asynchronous streaming dump

They were queued in the segment and never written to the file.
---
 mediagrains/gsf.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 9f16b43..4fac10e 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1828,11 +1828,18 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         segment = self._get_segment(segment_id, segment_local_id)
 
         if self._open_file is not None and self._active_dump:
+            await self._write_queued_grains()
             for grain in grains:
                 await self._open_file.write(segment.encode_grain(grain))
         else:
             segment.add_grains(grains)
 
+    async def _write_queued_grains(self) -> None:
+        """Segments can't write asynchronously, so grains added to them directly during a dump are queued"""
+        queued = self._encode_all_grains()
+        if queued and self._open_file is not None:
+            await self._open_file.write(queued)
+
     async def _truncate(self) -> None:
         if self._open_file is not None and self._open_file.seekable():
             self._open_file.seek(0)
@@ -1861,6 +1868,9 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
                                     self._encode_all_grains())
 
     async def _end_dump(self):
+        if self._active_dump:
+            await self._write_queued_grains()
+
         for seg in self._segments.values():
             if self._open_file.seekable() and seg._count_pos != -1:
                 curpos = self._open_file.tell()
-- 
2.43.0


From 237f1561b9f33dfa6b90669db05915b6b92509a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 04/52] fix: refuse header changes on an encoder during its
 asynchronous streaming dump

GSFEncoder.add_tag and add_segment are refused while a synchronous dump is
active, but were accepted, without any effect on the file, during an
asynchronous one.
---
 mediagrains/gsf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 4fac10e..819e968 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -2027,9 +2027,12 @@ class GSFEncoder(object):
     def segments(self) -> Mapping[int, "GSFEncoderSegment"]:
         return frozendict(self._segments)
 
+    def _async_dump_active(self) -> bool:
+        return self._open_async_encoder is not None and self._open_async_encoder._active_dump
+
     def add_tag(self, key: str, value: str):
         """Add a tag to the file"""
-        if self._open_encoder is not None:
+        if self._open_encoder is not None or self._async_dump_active():
             raise GSFEncodeAddToActiveDump("Cannot add a new tag to an encoder that is currently dumping")
 
         self._tags.append(GSFEncoderTag(key, value))
@@ -2041,7 +2044,7 @@ class GSFEncoder(object):
         integer, otherwise the next available integer will be used. Returns the newly
         created segment."""
 
-        if self._open_encoder is not None:
+        if self._open_encoder is not None or self._async_dump_active():
             raise GSFEncodeAddToActiveDump(
                 "Cannot add a new segment {} ({!s}) to an encoder that is currently dumping".format(local_id, id))
 
-- 
2.43.0


From 648a2d87d921a451405eec0bb2c69faea7251347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 05/52] fix: grains added to a segment reach the dump that is
 active

A segment created by an earlier dump kept looking at that dump's encoder, so
grains added to it during a later dump were queued and never written.
---
 mediagrains/gsf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 819e968..06f361b 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1716,6 +1716,10 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
         super().__init__(major, minor, id, created, tags, segments, streaming, next_local)
         self.file = file
 
+        # Grains added directly to a segment must find the dump that is currently active
+        for seg in segments.values():
+            seg._parent = self
+
     def add_grain(self,
                   grain: Grain,
                   segment_id: Optional[UUID] = None,
-- 
2.43.0


From adcc3f1a3dcca38e043b44df084636a6e65152b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 06/52] fix: a grain whose data could not be loaded can be
 awaited again

The exhausted awaitable was awaited a second time, raising RuntimeError.
---
 mediagrains/grains/Grain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index b438d44..a4125bc 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -385,6 +385,7 @@ media_rate
         async def __inner():
             if self._data is None and self._data_fetcher_coroutine is not None:
                 self._data = await self._data_fetcher_coroutine
+                self._data_fetcher_coroutine = None  # An awaitable can't be awaited twice
             return self._data
         return __inner().__await__()
 
-- 
2.43.0


From 30501648aaa01e733421a4202ecf9ea58f108337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 07/52] fix: numpy grains can be told that they have no data

Leaving an async decoder renders unread grains empty by setting their data to
None, which numpy grains rejected with a TypeError.
---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 4 ++++
 mediagrains/numpy/numpy_grains/VideoGrain.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 05f9082..db17be2 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -174,6 +174,10 @@ class AudioGrain (bytesgrain.AudioGrain):
             self._data_fetcher_coroutine = cast(Awaitable[GrainDataType], value)
             self._data = None
             self.channel_data = []
+        elif value is None:
+            self._data_fetcher_coroutine = None
+            self._data = None
+            self.channel_data = []
         else:
             self._data_fetcher_coroutine = None
             self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogaudioformat(self.format))
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 99be2a0..05c0d40 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -286,6 +286,10 @@ class VideoGrain (bytesgrain.VideoGrain):
             self._data_fetcher_coroutine = cast(Awaitable[GrainDataType], value)
             self._data = None
             self.component_data = ComponentDataList([])
+        elif value is None:
+            self._data_fetcher_coroutine = None
+            self._data = None
+            self.component_data = ComponentDataList([])
         else:
             self._data_fetcher_coroutine = None
             self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogframeformat(self.cog_frame_format))
-- 
2.43.0


From 2cf24c0431816d7b5db04e1cf6a75be25b5e2884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 08/52] fix: a file truncated inside a grain's data does not
 yield a partial grain

Every other truncation ends the iteration before the incomplete grain, and so
did this one for asynchronous files in memory, but other files returned the
grain with only part of its data.
---
 mediagrains/gsf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 06f361b..8412903 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1201,7 +1201,10 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                     else:
                                         await self.file_data.read(grdt_block.get_remaining())
                                 else:
-                                    data = await self.file_data.read(grdt_block.get_remaining())
+                                    wanted = grdt_block.get_remaining()
+                                    data = await self.file_data.read(wanted)
+                                    if len(data) != wanted:
+                                        raise EOFError("Unable to read enough bytes from source")
 
                 grain = self.Grain(meta, data)
 
@@ -1332,7 +1335,10 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
                                     else:
                                         self.file_data.read(grdt_block.get_remaining())
                                 else:
-                                    data = self.file_data.read(grdt_block.get_remaining())
+                                    wanted = grdt_block.get_remaining()
+                                    data = self.file_data.read(wanted)
+                                    if len(data) != wanted:
+                                        raise EOFError("Unable to read enough bytes from source")
 
                 grain = self.Grain(meta, data)
 
-- 
2.43.0


From f0f7b403f55e8ef95b456eb6169dc00617ac5ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 09/52] fix: reading all of an AsyncBytesIO moves its position
 to the end

A second read returned the same bytes again.
---
 mediagrains/utils/asyncbinaryio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 15fdfc6..5497800 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -132,7 +132,9 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
     @wrap_in_executor
     def readall(self) -> bytes:
         if self._pos >= 0 and self._pos < self._len:
-            return bytes(self._buffer[self._pos:self._len])
+            data = bytes(self._buffer[self._pos:self._len])
+            self._pos = self._len
+            return data
         else:
             return bytes()
 
-- 
2.43.0


From e13f82c6e045020d1ff5d201d6d2656414df3e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 10/52] fix: truncating an AsyncBytesIO forgets what was cut
 off

Extending it, or writing beyond its end, afterwards exposed the old bytes, and
extending it beyond its buffer made reads claim bytes that were not there.
---
 mediagrains/utils/asyncbinaryio.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 5497800..8c344e9 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -155,10 +155,13 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
         return length
 
     async def truncate(self, size: Optional[int] = None) -> int:
-        if size is not None:
-            self._len = size
-        else:
-            self._len = max(self._pos, 0)
+        if size is None:
+            size = max(self._pos, 0)
+
+        # Forget what is cut off, and fill what is added with zeros
+        del self._buffer[min(size, self._len):]
+        self._buffer.extend(bytes(size - len(self._buffer)))
+        self._len = size
 
         return self._len
 
-- 
2.43.0


From 429e85986f4cfef29c960c6e8e1641274e49f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 11/52] fix: AsyncBytesIO.seek returns the new position as
 every other file does

---
 mediagrains/utils/asyncbinaryio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 8c344e9..d78cc25 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -175,6 +175,7 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
             self._pos += offset
         else:
             self._pos = self._len + offset
+        return self._pos
 
     def seekable(self) -> bool:
         return True
-- 
2.43.0


From 1b3026563edc21a8e06094d2ac23268df2c23b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 12/52] fix: readall works on wrapped buffered files and
 BytesIO

Only raw files have a readall method.
---
 mediagrains/utils/asyncbinaryio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index d78cc25..fa30aea 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -229,7 +229,7 @@ class OpenAsyncFileWrapper(OpenAsyncBinaryIO):
         return await wrap_in_executor(self.fp.readinto)(b)
 
     async def readall(self) -> bytes:
-        return await wrap_in_executor(self.fp.readall)()
+        return await self.read()
 
     async def write(self, b: bytes) -> Optional[int]:
         return await wrap_in_executor(self.fp.write)(b)
@@ -283,7 +283,7 @@ class OpenAsyncBytesIOWrapper(OpenAsyncBinaryIO):
         return self.fp.readinto(b)
 
     async def readall(self) -> bytes:
-        return self.fp.readall()
+        return await self.read()
 
     async def write(self, b: bytes) -> Optional[int]:
         return self.fp.write(b)
-- 
2.43.0


From 7b06a22f8d25e289b96548a506e7870ab2859a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 13/52] fix: AsyncStreamWrapper.readall counts the bytes read
 only once

---
 mediagrains/utils/asyncbinaryio.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index fa30aea..923c244 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -373,9 +373,7 @@ class OpenAsyncStreamWrapper(OpenAsyncBinaryIO):
             return len(d)
 
     async def readall(self) -> bytes:
-        d = await self.read()
-        self._pos += len(d)
-        return d
+        return await self.read()
 
     async def write(self, b: bytes) -> Optional[int]:
         if self.writer is None:
-- 
2.43.0


From d6a139356860a8276ea5a4264a7c2e6893218140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 14/52] fix: writing nothing beyond the end of an AsyncBytesIO
 does not extend it

---
 mediagrains/utils/asyncbinaryio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 923c244..72a6829 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -140,7 +140,7 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
 
     @wrap_in_executor
     def write(self, b: bytes) -> int:
-        if self._pos < 0:
+        if self._pos < 0 or len(b) == 0:
             return 0
 
         if self._pos + len(b) > len(self._buffer):
-- 
2.43.0


From e3c4505b458b5b21b227c54be514c666e32e1364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 15/52] fix: slices of a grain's timelabels can be assigned

---
 mediagrains/grains/Grain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index a4125bc..9a8ef97 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -652,7 +652,7 @@ media_rate
                 self.parent.meta['grain']['timelabels'][key] = dict(Grain.TIMELABEL(value))
             else:
                 values = iter(value)
-                for n in key:
+                for n in range(len(self))[key]:
                     self.parent.meta['grain']['timelabels'][n] = dict(Grain.TIMELABEL(next(values)))
 
         def __delitem__(self, key: Union[int, slice]) -> None:
-- 
2.43.0


From e270bdef349f8b278e7e228dba458e488542575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 16/52] fix: assigning a grain's own timelabels to it lost them
 all

---
 mediagrains/grains/Grain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 9a8ef97..8fe57bf 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -534,6 +534,7 @@ media_rate
 
     @timelabels.setter
     def timelabels(self, value: "Union[List[Grain.TIMELABEL], Grain.TIMELABELS]") -> None:
+        value = list(value)  # which may be the timelabels of this grain
         cast(EmptyGrainMetadataDict, self.meta)['grain']['timelabels'] = []
         for x in value:
             self.timelabels.append(x)
-- 
2.43.0


From 624495320d18ad58e2c2622d077f37befca864ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 17/52] fix: components put into a video grain are kept as
 plain metadata

---
 mediagrains/grains/VideoGrain.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index 340b3d3..b611214 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -223,18 +223,19 @@ length
 
         def __setitem__(self, key, value):  # noqa: F811
             if isinstance(key, int):
-                self.parent.meta['grain']['cog_frame']['components'][key] = type(self.parent).COMPONENT(value)
+                self.parent.meta['grain']['cog_frame']['components'][key] = dict(type(self.parent).COMPONENT(value))
             else:
                 values = iter(value)
                 for n in range(len(self))[key]:
-                    self.parent.meta['grain']['cog_frame']['components'][n] = type(self.parent).COMPONENT(next(values))
+                    self.parent.meta['grain']['cog_frame']['components'][n] = dict(
+                        type(self.parent).COMPONENT(next(values)))
 
         def __delitem__(self, key: Union[int, slice]) -> None:
             del self.parent.meta['grain']['cog_frame']['components'][key]
 
         def insert(self, key: int, value: VideoGrainComponentDict) -> None:
             self.parent.meta['grain']['cog_frame']['components'].insert(
-                key, type(self.parent).COMPONENT(value))  # type: ignore
+                key, dict(type(self.parent).COMPONENT(value)))  # type: ignore
 
         def __len__(self) -> int:
             return len(self.parent.meta['grain']['cog_frame']['components'])
-- 
2.43.0


From 282d40f4433abd3aec8357eaccedc83e3b04fab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 18/52] fix: setting the missing pre value of event data to
 None raised KeyError

---
 mediagrains/grains/EventGrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index d90ce74..391aaa4 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -289,7 +289,7 @@ post
         def pre(self, value: Optional[MediaJSONSerialisable]) -> None:
             if value is not None:
                 self.meta['pre'] = value
-            else:
+            elif 'pre' in self.meta:
                 del self.meta['pre']
 
         @property
-- 
2.43.0


From 4f5bc4401ec4e39b02120d9c8e3313efbcd9e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 19/52] fix: event grains show their data when awaited or
 turned into bytes

---
 mediagrains/grains/EventGrain.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index 391aaa4..2fb9682 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -8,6 +8,8 @@ from typing import (
     SupportsBytes,
     Optional,
     cast,
+    Any,
+    Generator,
     Iterator,
     Awaitable)
 from typing_extensions import Literal
@@ -204,6 +206,22 @@ append(path, pre=None, post=None)
                 d['post'] = datum['post']
             self.meta['grain']['event_payload']['data'].append(d)
 
+    def __bytes__(self) -> bytes:
+        return self.data
+
+    def has_data(self) -> bool:
+        return self._data_fetcher_coroutine is None
+
+    def __await__(self) -> Generator[Any, None, bytes]:
+        async def __inner():
+            if self._data_fetcher_coroutine is not None:
+                data = await self._data_fetcher_coroutine
+                self._data_fetcher_coroutine = None  # An awaitable can't be awaited twice
+                if data is not None:
+                    self.data = data
+            return self.data
+        return __inner().__await__()
+
     def __repr__(self) -> str:
         return "EventGrain({!r})".format(self.meta)
 
-- 
2.43.0


From 2e48bb013e8687f313dc703640f48d9695d1e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 20/52] fix: decoding an event grain asynchronously raised
 AttributeError when deferring data

---
 mediagrains/gsf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 8412903..9d16463 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1175,9 +1175,11 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                     if grai_block.has_child_block():
                         async with AsyncGSFBlock(grai_block, want_tag="grdt") as grdt_block:
                             if grdt_block.get_remaining() > 0:
-                                if self.file_data.seekable_backwards() and loading_mode in [
+                                # The data of an event grain is part of its metadata, so it is never deferred
+                                if (self.file_data.seekable_backwards() and loading_mode in [
                                  GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE,
-                                 GrainDataLoadingMode.ALWAYS_LOAD_DEFER_IF_POSSIBLE]:
+                                 GrainDataLoadingMode.ALWAYS_LOAD_DEFER_IF_POSSIBLE]
+                                 and meta['grain']['grain_type'] != "event"):
                                     if not self._sync_compatibility_mode:
                                         # It is correct that this is not awaited here
                                         # It will be awaited when the data is actually needed.
-- 
2.43.0


From 458123c486a242a8dfdf26ac61de52584c8244fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 21/52] fix: presentation timestamps of coded video grains
 without a rate raised an error

---
 mediagrains/grains/CodedVideoGrain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index b45e5a7..ccbf1d2 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -415,20 +415,20 @@ unit_offsets
 
     @property
     def presentation_origin_timestamp(self) -> Timestamp:
-        if self.rate is not None and self.temporal_offset is not None:
+        if self.rate and self.temporal_offset is not None:
             return self.origin_timestamp + Timestamp.from_count(self.temporal_offset, self.rate)
         else:
             return self.origin_timestamp
 
     def final_presentation_origin_timestamp(self) -> Timestamp:
-        if self.rate is not None and self.temporal_offset is not None:
+        if self.rate and self.temporal_offset is not None:
             return self.final_origin_timestamp() + Timestamp.from_count(self.temporal_offset, self.rate)
         else:
             return self.final_origin_timestamp()
 
     def presentation_origin_timerange(self) -> TimeRange:
         origin_tr = self.origin_timerange()
-        if self.rate is not None and self.temporal_offset is not None:
+        if self.rate and self.temporal_offset is not None:
             if origin_tr.start is not None:
                 start = origin_tr.start + Timestamp.from_count(self.temporal_offset, self.rate)
             else:
-- 
2.43.0


From a2ce21824cf68ac23674ed4b27fef5e31a22217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 22/52] fix: AYUV video takes four bytes for each pixel

---
 mediagrains/grains/VideoGrain.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index b611214..c981b39 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -314,7 +314,7 @@ length
                     bpv = 4
                 return (w*h + 2*((w*h) >> (h_shift + v_shift)))*bpv
             else:
-                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY, CogFrameFormat.AYUV):
+                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY):
                     return w*h*2
                 elif fmt in (CogFrameFormat.RGBx,
                              CogFrameFormat.RGBA,
@@ -323,7 +323,8 @@ length
                              CogFrameFormat.BGRx,
                              CogFrameFormat.BGRA,
                              CogFrameFormat.xBGR,
-                             CogFrameFormat.ABGR):
+                             CogFrameFormat.ABGR,
+                             CogFrameFormat.AYUV):
                     return w*h*4
                 elif fmt == CogFrameFormat.RGB:
                     return w*h*3
@@ -375,7 +376,7 @@ length
                 })
                 offset += ((w*h) >> (h_shift + v_shift))*bpv
             else:
-                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY, CogFrameFormat.AYUV):
+                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY):
                     components.append({
                         'stride': w*2,
                         'offset': 0,
@@ -390,7 +391,8 @@ length
                              CogFrameFormat.BGRx,
                              CogFrameFormat.BGRA,
                              CogFrameFormat.xBGR,
-                             CogFrameFormat.ABGR):
+                             CogFrameFormat.ABGR,
+                             CogFrameFormat.AYUV):
                     components.append({
                         'stride': w*4,
                         'offset': 0,
-- 
2.43.0


From 2b28433e96abcbe6476d50f25db100b06009b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:53 +0000
Subject: [PATCH 23/52] fix: numpy video grains support BGRA

---
 mediagrains/numpy/numpy_grains/VideoGrain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 05c0d40..f108025 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -44,7 +44,7 @@ def _dtype_from_cogframeformat(fmt: CogFrameFormat) -> np.dtype:
                  CogFrameFormat.RGBx,
                  CogFrameFormat.RGBA,
                  CogFrameFormat.BGRx,
-                 CogFrameFormat.BGRx,
+                 CogFrameFormat.BGRA,
                  CogFrameFormat.ARGB,
                  CogFrameFormat.xRGB,
                  CogFrameFormat.ABGR,
@@ -183,7 +183,7 @@ def _component_arrays_for_data_and_type(
     elif fmt in [CogFrameFormat.RGBx,
                  CogFrameFormat.RGBA,
                  CogFrameFormat.BGRx,
-                 CogFrameFormat.BGRx]:
+                 CogFrameFormat.BGRA]:
         # 8 bit 4:4:4:4 four components interleave dropping the fourth component
         return _component_arrays_for_interleaved_444_take_three(data,
                                                                 data[1:],
-- 
2.43.0


From f1e244eed576fe8e9477613743f037a57a6751da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 24/52] fix: grains of no kind with data can be deferred

---
 mediagrains/gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 9d16463..c4c0fc4 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1179,7 +1179,7 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                 if (self.file_data.seekable_backwards() and loading_mode in [
                                  GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE,
                                  GrainDataLoadingMode.ALWAYS_LOAD_DEFER_IF_POSSIBLE]
-                                 and meta['grain']['grain_type'] != "event"):
+                                 and meta['grain'].get('grain_type') != "event"):
                                     if not self._sync_compatibility_mode:
                                         # It is correct that this is not awaited here
                                         # It will be awaited when the data is actually needed.
-- 
2.43.0


From 753d9e93299977df7e4cc219c73f973b323c089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 25/52] fix: look for the grdt block only inside its grai block

Where a grai block held other blocks but no grdt block, the search ran on past
its end and swallowed the grains that followed.
---
 mediagrains/gsf.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index c4c0fc4..f2dfce9 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1172,8 +1172,10 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                     data: Optional[Union[bytes, Awaitable[Optional[bytes]]]] = None
 
                     data_length = 0
-                    if grai_block.has_child_block():
-                        async with AsyncGSFBlock(grai_block, want_tag="grdt") as grdt_block:
+                    while grai_block.has_child_block():
+                        async with AsyncGSFBlock(grai_block) as grdt_block:
+                            if grdt_block.tag != "grdt":
+                                continue
                             if grdt_block.get_remaining() > 0:
                                 # The data of an event grain is part of its metadata, so it is never deferred
                                 if (self.file_data.seekable_backwards() and loading_mode in [
@@ -1207,6 +1209,7 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                     data = await self.file_data.read(wanted)
                                     if len(data) != wanted:
                                         raise EOFError("Unable to read enough bytes from source")
+                            break
 
                 grain = self.Grain(meta, data)
 
@@ -1322,8 +1325,10 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
 
                     data: Optional[Union[bytes, Awaitable[Optional[bytes]]]] = None
 
-                    if grai_block.has_child_block():
-                        with SyncGSFBlock(grai_block, want_tag="grdt") as grdt_block:
+                    while grai_block.has_child_block():
+                        with SyncGSFBlock(grai_block) as grdt_block:
+                            if grdt_block.tag != "grdt":
+                                continue
                             if grdt_block.get_remaining() > 0:
                                 if self.file_data.seekable() and loading_mode in [
                                  GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE,
@@ -1341,6 +1346,7 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
                                     data = self.file_data.read(wanted)
                                     if len(data) != wanted:
                                         raise EOFError("Unable to read enough bytes from source")
+                            break
 
                 grain = self.Grain(meta, data)
 
-- 
2.43.0


From 5a74aac833464495fdb01883b4daa3980db59a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 26/52] fix: read_varbytes raises EOFError if there are too few
 bytes, as documented

---
 mediagrains/gsf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index f2dfce9..032c6ae 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -789,7 +789,12 @@ class SyncGSFBlock():
         :raises EOFError: If there are too few bytes left in the source
         """
         length = self.read_uint(4)
-        return self.file_data.read(length)
+        data = self.file_data.read(length)
+
+        if len(data) != length:
+            raise EOFError("Unable to read enough bytes from source")
+
+        return data
 
     def skip(self, length: int) -> None:
         """Skip length bytes
-- 
2.43.0


From e4cc263a4784007d43ae4e956ac665bb358aba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:03 +0000
Subject: [PATCH 27/52] fix: refuse ADTS headers whose frame length is shorter
 than the header

---
 mediagrains/utils/adts_aac_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediagrains/utils/adts_aac_parser.py b/mediagrains/utils/adts_aac_parser.py
index eb96a71..93144b9 100644
--- a/mediagrains/utils/adts_aac_parser.py
+++ b/mediagrains/utils/adts_aac_parser.py
@@ -59,6 +59,8 @@ class ADTSAACParser(object):
                 (frame_data[4] << 3) |
                 ((frame_data[5] >> 5) & 0x07)
             )
+            if frame_size < MIN_ADTS_HEADER_SIZE:
+                raise ValueError("Invalid ADTS frame size {}".format(frame_size))
 
             frame_info = FrameInfo(frame_size, object_type, sample_rate, channels)
 
-- 
2.43.0


From 1adc907508bbca86ffb94b58f8325ac9805c157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:43 +0000
Subject: [PATCH 28/52] fix: wrapping raw audio needs a grain rate (it failed
 with 'invalid rate')

---
 mediagrains/tools/wrap_in_gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/tools/wrap_in_gsf.py b/mediagrains/tools/wrap_in_gsf.py
index dd508d3..0b6e62a 100644
--- a/mediagrains/tools/wrap_in_gsf.py
+++ b/mediagrains/tools/wrap_in_gsf.py
@@ -175,7 +175,7 @@ def wrap_audio_in_gsf():
         template_grain = AudioGrain(
             flow_id=flow_id, src_id=source_id, origin_timestamp=args.start_ts, sample_rate=sample_rate,
             duration=duration, channels=channels, samples=samples_per_grain, cog_audio_format=args.format,
-            rate=fractions.Fraction(0, 1)
+            rate=1/duration
         )
         Wrapper = GrainWrapper
 
-- 
2.43.0


From 2aff0ef260f73ea441827d516266547b524b7a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:43 +0000
Subject: [PATCH 29/52] fix: wrapping AAC audio without --samples-per-grain or
 --sample-rate raised TypeError

---
 mediagrains/tools/wrap_in_gsf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mediagrains/tools/wrap_in_gsf.py b/mediagrains/tools/wrap_in_gsf.py
index 0b6e62a..4b7be27 100644
--- a/mediagrains/tools/wrap_in_gsf.py
+++ b/mediagrains/tools/wrap_in_gsf.py
@@ -148,11 +148,10 @@ def wrap_audio_in_gsf():
     source_id = args.source_id if args.source_id else uuid.uuid4()
 
     if args.format == CogAudioFormat.AAC:
-        duration = fractions.Fraction(args.samples_per_grain, args.sample_rate)
-
+        # The rate and duration are set from the first frame
         template_grain = CodedAudioGrain(
             flow_id=flow_id, src_id=source_id, origin_timestamp=args.start_ts, sample_rate=args.sample_rate,
-            duration=duration, channels=args.channels, samples=args.samples_per_grain, cog_audio_format=args.format,
+            duration=fractions.Fraction(0, 1), channels=args.channels, samples=args.samples_per_grain, cog_audio_format=args.format,
             rate=fractions.Fraction(0, 1)
         )
         Wrapper = ADTSAACGrainWrapper
-- 
2.43.0


From e6d9bcf38f0eef382fdf117a032a61f6c95b8f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:43 +0000
Subject: [PATCH 30/52] fix: the last bytes of a piped input were lost, or
 raised EOFError when wrapping coded essence

---
 mediagrains/tools/_file_or_pipe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mediagrains/tools/_file_or_pipe.py b/mediagrains/tools/_file_or_pipe.py
index 40f08b0..e5fab53 100644
--- a/mediagrains/tools/_file_or_pipe.py
+++ b/mediagrains/tools/_file_or_pipe.py
@@ -29,14 +29,15 @@ class InputStreamWrapper(BufferedIOBase):
 
     def read(self, size=-1) -> bytes:
         out = b""
-        if size == -1:
+        if size is None or size < 0:
             out = self._file.read(-1)
         else:
             s = size
             while len(out) < size:
                 b = self._file.read(s)
                 if len(b) == 0:
-                    raise EOFError
+                    # As for any other binary file fewer bytes are returned at the end of the stream
+                    break
                 s -= len(b)
                 out += b
 
@@ -52,8 +53,7 @@ class InputStreamWrapper(BufferedIOBase):
         if offset < 0:
             raise NotImplementedError("Cannot seek backwards in a stream")
         if offset > 0:
-            self._file.read(offset)
-        self._pos += offset
+            self.read(offset)
         return self._pos
 
 
-- 
2.43.0


From d6ccaad3beb6fae8aee40abe2dfc679e89498d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 31/52] fix: colour bars of widths that are not a multiple of
 eight raised IndexError or ZeroDivisionError

---
 mediagrains/patterngenerators/video/colourbars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/patterngenerators/video/colourbars.py b/mediagrains/patterngenerators/video/colourbars.py
index 78ec154..eda0b5e 100644
--- a/mediagrains/patterngenerators/video/colourbars.py
+++ b/mediagrains/patterngenerators/video/colourbars.py
@@ -59,7 +59,7 @@ class ColourBars(StillPatternGenerator):
             bytearray(vg.components[2].width*_bpp)]
         for c in range(0, 3):
             for x in range(0, vg.components[c].width):
-                pos = x//(vg.components[c].width//_steps)
+                pos = (x*_steps)//vg.components[c].width
                 if _bpp == 1:
                     lines[c][x] = values[pos][c]
                 elif _bpp == 2:
-- 
2.43.0


From 34d2c06d32970e69f24d775e74330f523c85aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 32/52] fix: luma steps had a ninth step for widths that are
 not a multiple of eight, and raised ZeroDivisionError below eight

---
 mediagrains/patterngenerators/video/lumasteps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/patterngenerators/video/lumasteps.py b/mediagrains/patterngenerators/video/lumasteps.py
index 5c39ed1..c740f4f 100644
--- a/mediagrains/patterngenerators/video/lumasteps.py
+++ b/mediagrains/patterngenerators/video/lumasteps.py
@@ -47,7 +47,7 @@ class LumaSteps(StillPatternGenerator):
 
         line = bytearray(width*_bpp)
         for x in range(0, width):
-            pos = x//(width//_steps)
+            pos = (x*_steps)//width
             if _bpp == 1:
                 line[x] = (_offset + ((pos * _range)//_steps)) & 0xFF
             elif _bpp == 2:
-- 
2.43.0


From e2ca71f804404797c3fa5b333c0d11700c0460ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 33/52] fix: video pattern generators raised ValueError when
 indexed by a count

---
 mediagrains/patterngenerators/video/still.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/patterngenerators/video/still.py b/mediagrains/patterngenerators/video/still.py
index fc3f7bc..3b98482 100644
--- a/mediagrains/patterngenerators/video/still.py
+++ b/mediagrains/patterngenerators/video/still.py
@@ -42,7 +42,7 @@ class StillPatternGenerator (VideoPatternGenerator):
 
         if tv == key:
             grain = deepcopy(self._template_grain)
-            grain.origin_timestamp = key.as_timestamp()
+            grain.origin_timestamp = tv.as_timestamp()
             grain.sync_timestamp = grain.origin_timestamp
             return grain
         else:
-- 
2.43.0


From e89ecb56480d07806c611b16e91f3c97d8649edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 34/52] fix: Tone.get ignored its default

---
 mediagrains/patterngenerators/audio/tone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index f0c38fe..8d2dfcc 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -162,7 +162,7 @@ class Tone(AudioPatternGenerator):
         sample_count = tv.as_count()
 
         if sample_count % self.samples != 0:
-            return None
+            return default
 
         offs = sample_count % self.looplen
 
-- 
2.43.0


From 6d5875e76cd52a1a8060a88e66f61508700811b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 35/52] fix: MovingBarOverlay.get raised KeyError instead of
 returning its default

---
 mediagrains/patterngenerators/video/movingbaroverlay.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mediagrains/patterngenerators/video/movingbaroverlay.py b/mediagrains/patterngenerators/video/movingbaroverlay.py
index 1df7f13..201a115 100644
--- a/mediagrains/patterngenerators/video/movingbaroverlay.py
+++ b/mediagrains/patterngenerators/video/movingbaroverlay.py
@@ -69,7 +69,7 @@ class MovingBarOverlay (VideoPatternGenerator):
     def get(self, key: TimeValue, default: Optional[VideoGrain] = None) -> Optional[VideoGrain]:
         tv = TimeValue(key, rate=self.rate)
 
-        grain = self._source[tv]
+        grain = self._source.get(tv)
 
         if grain is not None:
             fnum = int(self._bar_speed*grain.origin_timestamp.to_count(grain.rate.numerator, grain.rate.denominator))
@@ -95,4 +95,6 @@ class MovingBarOverlay (VideoPatternGenerator):
                     grain.components[2].offset+line_no*grain.components[2].stride+grain.components[2].width*_bpp] = (
                         self._bar[2][y*grain.components[2].width * _bpp: (y+1)*grain.components[2].width * _bpp])
 
-        return grain
+            return grain
+
+        return default
-- 
2.43.0


From 9d3bc124d6c127898d7e5b8f2400e1dda4b78cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 36/52] fix: tones in PAIRS formats with an odd number of
 channels raised struct.error

---
 mediagrains/patterngenerators/audio/tone.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 8d2dfcc..6087355 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -140,20 +140,20 @@ class Tone(AudioPatternGenerator):
             if planes:
                 line = line * self.channels
             elif pairs:
-                line = [x for x in line for _ in range(0, 2)] * (self.channels//2)
+                line = [x for x in line for _ in range(0, 2)] * ((self.channels + 1)//2)
             elif interleaved:
                 line = [x for x in line for _ in range(0, self.channels)]
 
             if depth == 16:
-                self.data_samples[offs] = struct.pack('@' + ('h'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('h'*len(line)), *line)
             elif depth == 24:
                 self.data_samples[offs] = b''.join(struct.pack('@i', x)[:3] for x in line)
             elif depth == 32:
-                self.data_samples[offs] = struct.pack('@' + ('i'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('i'*len(line)), *line)
             elif depth == 'f':
-                self.data_samples[offs] = struct.pack('@' + ('f'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('f'*len(line)), *line)
             elif depth == 'd':
-                self.data_samples[offs] = struct.pack('@' + ('d'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('d'*len(line)), *line)
 
         return self.data_samples[offs]
 
-- 
2.43.0


From 943f8d7f611cbfaedfb71b5de3f334bfdea76bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 37/52] fix: full volume tones overflowed (struct.error, or a
 wrong sign with 24 bits)

---
 mediagrains/patterngenerators/audio/tone.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 6087355..89ecc7b 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -90,17 +90,17 @@ class Tone(AudioPatternGenerator):
             if self.cog_audio_format in [CogAudioFormat.S16_PLANES,
                                          CogAudioFormat.S16_PAIRS,
                                          CogAudioFormat.S16_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 15)) for x in self._sample_values]
+                formatted_sample_data = [min(round(x*self.volume*(1 << 15)), (1 << 15) - 1) for x in self._sample_values]
                 depth = 16
             elif self.cog_audio_format in [CogAudioFormat.S24_PLANES,
                                            CogAudioFormat.S24_PAIRS,
                                            CogAudioFormat.S24_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 23)) for x in self._sample_values]
+                formatted_sample_data = [min(round(x*self.volume*(1 << 23)), (1 << 23) - 1) for x in self._sample_values]
                 depth = 24
             elif self.cog_audio_format in [CogAudioFormat.S32_PLANES,
                                            CogAudioFormat.S32_PAIRS,
                                            CogAudioFormat.S32_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 31)) for x in self._sample_values]
+                formatted_sample_data = [min(round(x*self.volume*(1 << 31)), (1 << 31) - 1) for x in self._sample_values]
                 depth = 32
             elif self.cog_audio_format in [CogAudioFormat.FLOAT_PLANES,
                                            CogAudioFormat.FLOAT_PAIRS,
-- 
2.43.0


From b636569bd11ebde9b19b0d6c7dbc3916e7a8a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 38/52] fix: tones in the S24_PLANES format had three instead
 of four bytes per sample

---
 mediagrains/patterngenerators/audio/tone.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 89ecc7b..d61f997 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -90,17 +90,20 @@ class Tone(AudioPatternGenerator):
             if self.cog_audio_format in [CogAudioFormat.S16_PLANES,
                                          CogAudioFormat.S16_PAIRS,
                                          CogAudioFormat.S16_INTERLEAVED]:
-                formatted_sample_data = [min(round(x*self.volume*(1 << 15)), (1 << 15) - 1) for x in self._sample_values]
+                formatted_sample_data = [
+                    min(round(x*self.volume*(1 << 15)), (1 << 15) - 1) for x in self._sample_values]
                 depth = 16
             elif self.cog_audio_format in [CogAudioFormat.S24_PLANES,
                                            CogAudioFormat.S24_PAIRS,
                                            CogAudioFormat.S24_INTERLEAVED]:
-                formatted_sample_data = [min(round(x*self.volume*(1 << 23)), (1 << 23) - 1) for x in self._sample_values]
+                formatted_sample_data = [
+                    min(round(x*self.volume*(1 << 23)), (1 << 23) - 1) for x in self._sample_values]
                 depth = 24
             elif self.cog_audio_format in [CogAudioFormat.S32_PLANES,
                                            CogAudioFormat.S32_PAIRS,
                                            CogAudioFormat.S32_INTERLEAVED]:
-                formatted_sample_data = [min(round(x*self.volume*(1 << 31)), (1 << 31) - 1) for x in self._sample_values]
+                formatted_sample_data = [
+                    min(round(x*self.volume*(1 << 31)), (1 << 31) - 1) for x in self._sample_values]
                 depth = 32
             elif self.cog_audio_format in [CogAudioFormat.FLOAT_PLANES,
                                            CogAudioFormat.FLOAT_PAIRS,
@@ -147,7 +150,8 @@ class Tone(AudioPatternGenerator):
             if depth == 16:
                 self.data_samples[offs] = struct.pack('@' + ('h'*len(line)), *line)
             elif depth == 24:
-                self.data_samples[offs] = b''.join(struct.pack('@i', x)[:3] for x in line)
+                # In the PLANES format the samples are held in 32 bits
+                self.data_samples[offs] = b''.join(struct.pack('@i', x)[:4 if planes else 3] for x in line)
             elif depth == 32:
                 self.data_samples[offs] = struct.pack('@' + ('i'*len(line)), *line)
             elif depth == 'f':
-- 
2.43.0


From 494b282fd9d8c75610938234c639d59e10f239b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 39/52] fix: compare_grains_pairwise with return_last_only
 raised UnboundLocalError when no grains were compared

---
 mediagrains/comparison/_internal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index e8a7516..242335d 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -531,6 +531,7 @@ class GrainIteratorComparisonResult(ComparisonResult):
         all_success = True
 
         children: list[ComparisonResult] = []
+        last_comparison: Optional[ComparisonResult] = None
 
         while True:
             A = next(a, None)
-- 
2.43.0


From 4070dc8e19966c1596c468d438e29accb419283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 40/52] fix: the result of a PSNR comparison was not reachable
 as data, nor among the failing attributes

---
 mediagrains/comparison/_internal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 242335d..67a6fd5 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -652,7 +652,8 @@ class GrainComparisonResult(ComparisonResult):
                 children['data'] = PSNRComparisonResult(path,
                                                         a,
                                                         b,
-                                                        options=self._options)
+                                                        options=self._options,
+                                                        attr="data")
             else:
                 words_per_sample = 1
                 force_signed = False
@@ -743,7 +744,8 @@ class GrainComparisonResult(ComparisonResult):
                 children['data'] = PSNRComparisonResult(path,
                                                         a,
                                                         b,
-                                                        options=self._options)
+                                                        options=self._options,
+                                                        attr="data")
             else:
                 if COG_FRAME_IS_COMPRESSED(a.cog_frame_format):
                     word_code = 'B'
-- 
2.43.0


From b5d8bf9bff21430c3a09618c79c2dfa27f00fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 41/52] fix: comparing the PSNR of grains of different sizes
 raised AttributeError

---
 mediagrains/comparison/_internal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 67a6fd5..3503693 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -444,6 +444,9 @@ class PSNRComparisonResult(ComparisonResult):
         except NotImplementedError:
             return (False, "Grain is not supported for PSNR comparison of {} and {}".format(
                 self._identifier.format('a'), self._identifier.format('b')), [])
+        except AttributeError as e:
+            return (False, "PSNR({}, {}) cannot be computed: {}".format(
+                self._identifier.format('a'), self._identifier.format('b'), e), [])
 
         if all(opt.matcher(psnr) for opt in opts):
             return (True, "PSNR({}, {}) == {!r}, meets requirements set in options".format(
-- 
2.43.0


From 222bfc445cc58914ece361f2f8993e228423d818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 42/52] fix: comparing data that is not a whole number of words
 raised struct.error, or ignored the last bytes

---
 mediagrains/comparison/_internal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 3503693..097d6b2 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -273,6 +273,12 @@ class DataEqualityComparisonResult(ComparisonResult):
         def id(x):
             return x
 
+        # Data which is not a whole number of words is compared byte by byte
+        word_size = struct.calcsize(word_code) * words_per_sample
+        if (a is not None and len(a) % word_size != 0) or (b is not None and len(b) % word_size != 0):
+            self.words_per_sample = words_per_sample = 1
+            self.word_code = word_code = 'B'
+
         if words_per_sample == 1:
             if a is not None:
                 a = struct.unpack(alignment + (self.word_code*(len(a)//struct.calcsize(word_code))), a)
-- 
2.43.0


From 02ad5e31628f9445082bd4ab94dbc593683f9722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 43/52] fix: samples in the S24_PLANES format were compared as
 three instead of four bytes

---
 mediagrains/comparison/_internal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 097d6b2..a5e03a3 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -670,15 +670,16 @@ class GrainComparisonResult(ComparisonResult):
                                           CogAudioFormat.S16_PAIRS,
                                           CogAudioFormat.S16_INTERLEAVED]:
                     word_code = 'h'
-                elif a.cog_audio_format in [CogAudioFormat.S24_PLANES,
-                                            CogAudioFormat.S24_PAIRS,
+                elif a.cog_audio_format in [CogAudioFormat.S24_PAIRS,
                                             CogAudioFormat.S24_INTERLEAVED]:
                     word_code = 'B'
                     words_per_sample = 3
                     force_signed = True
-                elif a.cog_audio_format in [CogAudioFormat.S32_PLANES,
+                elif a.cog_audio_format in [CogAudioFormat.S24_PLANES,
+                                            CogAudioFormat.S32_PLANES,
                                             CogAudioFormat.S32_PAIRS,
                                             CogAudioFormat.S32_INTERLEAVED]:
+                    # S24_PLANES samples are held in 32 bits
                     word_code = 'i'
                 elif a.cog_audio_format in [CogAudioFormat.S64_INVALID]:
                     word_code = 'l'
-- 
2.43.0


From 0053ac5c499cae30351ff0789ad3e8c24f04ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 44/52] fix: identical floating point data with NaN values did
 not match

---
 mediagrains/comparison/_internal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index a5e03a3..ab15db3 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -258,6 +258,7 @@ class DataEqualityComparisonResult(ComparisonResult):
             a = bytes(a)
         if b is not None:
             b = bytes(b)
+        self._identical = (a == b)
 
         def _signer(n):
             OFL = 1 << (words_per_sample*8)
@@ -320,6 +321,10 @@ class DataEqualityComparisonResult(ComparisonResult):
             return (False, "For speed reasons not comparing {} and {} when this would be excluded".format(
                 self._identifier.format('a'), self._identifier.format('b')), [])
 
+        if self._identical:
+            # Also for values which are not equal to themselves, ie. NaN
+            return (True, "Binary data {} are equal".format(self._identifier.format('<a/b>')), [])
+
         self.d = SequenceMatcher(None, a, b)
         if self.d.ratio() == 1.0:
             return (True, "Binary data {} are equal".format(self._identifier.format('<a/b>')), [])
-- 
2.43.0


From 23ca28044f0a8e50e0496a2cc165ab8481d690bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 45/52] fix: the values reported as the first that differ could
 be equal

---
 mediagrains/comparison/_internal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index ab15db3..c993a20 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -329,8 +329,7 @@ class DataEqualityComparisonResult(ComparisonResult):
         if self.d.ratio() == 1.0:
             return (True, "Binary data {} are equal".format(self._identifier.format('<a/b>')), [])
         else:
-            first_op = [x for x in self.d.get_opcodes() if x[0] != 'equal'][0]
-            i = first_op[1]
+            i = next((n for n, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
             if i < len(a) and i < len(b):
                 msg = ("Binary data {} has similarity {} to {}, " +
                        "first different values are {}[{}] == {} and {}[{}] == {}").format(self._identifier.format('a'),
-- 
2.43.0


From 83c2fd321980d28b75ec95e9754c3a6776590719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 46/52] fix: ExpectedDifference options were ignored for
 integer attributes

---
 mediagrains/comparison/_internal.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index c993a20..a10a06f 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -224,6 +224,16 @@ class ComparisonResult(Generic[CR]):
 
 class EqualityComparisonResult(ComparisonResult):
     def compare(self, a, b) -> tuple[bool, str, list[ComparisonResult]]:
+        opts = [option for option in self.ownoptions() if isinstance(option, ComparisonExpectDifferenceMatches)]
+        if len(opts) != 0 and isinstance(a, int) and isinstance(b, int):
+            diff = a - b
+            if all(opt.matcher(diff) for opt in opts):
+                return (True, "{} - {} == {!r}, meets requirements set in options".format(
+                    self._identifier.format('a'), self._identifier.format('b'), diff), [])
+            else:
+                return (False, "{} - {} == {!r}, does not meet requirements set in options".format(
+                    self._identifier.format('a'), self._identifier.format('b'), diff), [])
+
         if a == b:
             return (True, "{} == {!r}".format(self._identifier.format('<a/b>'), a), [])
         else:
-- 
2.43.0


From 423ceed2c9326cac2947a5c476509233b50666e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:20 +0000
Subject: [PATCH 47/52] fix: slices of one H.264 picture may differ in
 nal_ref_idc

Two slices belong to different pictures if their nal_ref_idc differ with one of
them being 0 (H.264 7.4.1.2.4). The parser split a picture whenever they differ.
---
 mediagrains/utils/h264_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 4b53589..79e185a 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -201,7 +201,7 @@ class H264Parser(object):
                                     (slice_header.field_pic_flag and
                                         slice_header.bottom_field_flag != first_slice_header.bottom_field_flag) or
                                     (slice_header.nal_ref_idc != first_slice_header.nal_ref_idc and
-                                        (slice_header.nal_ref_idc != 0 or first_slice_header.nal_ref_idc != 0)) or
+                                        (slice_header.nal_ref_idc == 0 or first_slice_header.nal_ref_idc == 0)) or
                                     slice_header.idr_pic_flag != first_slice_header.idr_pic_flag or
                                     (slice_header.idr_pic_flag == 1 and
                                         slice_header.idr_pic_id != first_slice_header.idr_pic_id) or
-- 
2.43.0


From 44357631a49b601df74f755923c0a18496ce557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:20 +0000
Subject: [PATCH 48/52] fix: read slice_group_id of an H.264 PPS with its own
 width

slice_group_id is Ceil(Log2(num_slice_groups_minus1 + 1)) bits wide (H.264
7.4.2.2), whatever the size of the picture. What follows it in the PPS
(redundant_pic_cnt_present_flag) was read from the wrong place.
---
 mediagrains/utils/h264_parser.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 79e185a..4dc8617 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -593,10 +593,7 @@ class H264Parser(object):
             elif slice_group_map_type == 6:
                 pic_size_in_map_units_minus1 = rbsp_bits.read('ue')
                 for _ in range(0, pic_size_in_map_units_minus1 + 1):
-                    value = pic_size_in_map_units_minus1 + 1
-                    bits_required = 63
-                    while bits_required and not (value & (1 << bits_required)):
-                        bits_required -= 1
+                    bits_required = num_slice_groups_minus1.bit_length()  # Ceil(Log2(num_slice_groups_minus1 + 1))
                     rbsp_bits.read('uint:{}'.format(bits_required))  # slice_group_id[]
         rbsp_bits.read('ue')  # num_ref_idx_l0_default_active_minus1
         rbsp_bits.read('ue')  # num_ref_idx_l1_default_active_minus1
-- 
2.43.0


From 162ab57cfc38cc5faddafdf7729249f128276d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:20 +0000
Subject: [PATCH 49/52] fix: accept an H.264 SPS that leaves its sample aspect
 ratio unspecified

An extended SAR with a zero sar_width or sar_height is unspecified (H.264
E.2.1). A zero sar_height raised a ZeroDivisionError, so no grain of the stream
could be read.
---
 mediagrains/utils/h264_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 4dc8617..a74c8c5 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -429,6 +429,8 @@ class H264Parser(object):
         ]
 
         if sps.aspect_ratio_idc == 255:  # extended SAR
+            if sps.sar_height == 0:  # unspecified
+                return Fraction(0, 1)
             return Fraction(sps.sar_width, sps.sar_height)
         elif sps.aspect_ratio_idc < len(aspect_ratios):
             return Fraction(aspect_ratios[sps.aspect_ratio_idc][0], aspect_ratios[sps.aspect_ratio_idc][1])
-- 
2.43.0


From e7e1e93b190260a2f50597bca3858853058421ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:09 +0000
Subject: [PATCH 50/52] fix: leave the data of S24_PLANES numpy audio grains
 alone when widening its samples

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index db17be2..49af81f 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -66,8 +66,7 @@ def _channel_arrays_for_data_and_type(data: Optional[np.ndarray],
         else:
             # The 24 bits are stored in the least significant bits. Shift to the most
             # significant bits end to produce int32 samples
-            data = data.view(np.int32)
-            data <<= 8
+            data = data.view(np.int32) << 8
         sample_bytes = 4
     else:
         sample_bytes = COG_AUDIO_FORMAT_SAMPLEBYTES(format)
-- 
2.43.0


From 26501301b4e70d1089bdfe0636c5a9a0b40f6db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:28 +0000
Subject: [PATCH 51/52] fix: conversions to fewer bits turned the brightest
 samples to black

---
 mediagrains/numpy/convert.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/mediagrains/numpy/convert.py b/mediagrains/numpy/convert.py
index 2a0c925..e630fde 100644
--- a/mediagrains/numpy/convert.py
+++ b/mediagrains/numpy/convert.py
@@ -100,30 +100,27 @@ def _simple_duplicate_convert_yuv420__yuv422(grain_in: VideoGrain, grain_out: Vi
 
 
 # Bit depth conversions
-def _unbiased_right_shift(a: np.ndarray, n: int) -> np.ndarray:
-    return (a >> n) + ((a >> (n - 1)) & 0x1)
+def _unbiased_right_shift(a: np.ndarray, n: int, bits: int) -> np.ndarray:
+    """Shift right by n bits, rounding to the nearest value of the given number of bits."""
+    return np.minimum((a >> n) + ((a >> (n - 1)) & 0x1), (1 << bits) - 1)
 
 
 def _bitdepth_down_convert_yuv(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
-    bitshift = (
-        COG_FRAME_FORMAT_ACTIVE_BITS(grain_in.cog_frame_format) -
-        COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
-    )
+    bits = COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
+    bitshift = COG_FRAME_FORMAT_ACTIVE_BITS(grain_in.cog_frame_format) - bits
 
-    grain_out.component_data[0][:] = _unbiased_right_shift(grain_in.component_data[0][:], bitshift)
-    grain_out.component_data[1][:] = _unbiased_right_shift(grain_in.component_data[1][:], bitshift)
-    grain_out.component_data[2][:] = _unbiased_right_shift(grain_in.component_data[2][:], bitshift)
+    grain_out.component_data[0][:] = _unbiased_right_shift(grain_in.component_data[0][:], bitshift, bits)
+    grain_out.component_data[1][:] = _unbiased_right_shift(grain_in.component_data[1][:], bitshift, bits)
+    grain_out.component_data[2][:] = _unbiased_right_shift(grain_in.component_data[2][:], bitshift, bits)
 
 
 def _bitdepth_down_convert_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
-    bitshift = (
-        COG_FRAME_FORMAT_ACTIVE_BITS(grain_in.cog_frame_format) -
-        COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
-    )
+    bits = COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
+    bitshift = COG_FRAME_FORMAT_ACTIVE_BITS(grain_in.cog_frame_format) - bits
 
-    grain_out.component_data.R[:] = _unbiased_right_shift(grain_in.component_data.R[:], bitshift)
-    grain_out.component_data.G[:] = _unbiased_right_shift(grain_in.component_data.G[:], bitshift)
-    grain_out.component_data.B[:] = _unbiased_right_shift(grain_in.component_data.B[:], bitshift)
+    grain_out.component_data.R[:] = _unbiased_right_shift(grain_in.component_data.R[:], bitshift, bits)
+    grain_out.component_data.G[:] = _unbiased_right_shift(grain_in.component_data.G[:], bitshift, bits)
+    grain_out.component_data.B[:] = _unbiased_right_shift(grain_in.component_data.B[:], bitshift, bits)
 
 
 def _noisy_left_shift(a: np.ndarray, n: int) -> np.ndarray:
-- 
2.43.0


From be2b3b4d5c998556dcaa1d1b9d16e1624edcfef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:28 +0000
Subject: [PATCH 52/52] fix: conversions to RGB turned samples above the range
 to black

---
 mediagrains/numpy/convert.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mediagrains/numpy/convert.py b/mediagrains/numpy/convert.py
index e630fde..771baa9 100644
--- a/mediagrains/numpy/convert.py
+++ b/mediagrains/numpy/convert.py
@@ -163,11 +163,11 @@ def _convert_rgb_to_yuv444(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
 
     # Note that NumPy requires the `unsafe` cast here due to the slight loss of precision in RGB<->YUV conversion
     np.clip((R*0.2126 + G*0.7152 + B*0.0722),
-            0, 1 << bd, out=grain_out.component_data.Y, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.Y, casting="unsafe")  # type: ignore
     np.clip((R*-0.114572 - G*0.385428 + B*0.5 + (1 << (bd - 1))),  # type: ignore
-            0, 1 << bd, out=grain_out.component_data.U, casting="unsafe")
+            0, (1 << bd) - 1, out=grain_out.component_data.U, casting="unsafe")
     np.clip((R*0.5 - G*0.454153 - B*0.045847 + (1 << (bd - 1))),  # type: ignore
-            0, 1 << bd, out=grain_out.component_data.V, casting="unsafe")
+            0, (1 << bd) - 1, out=grain_out.component_data.V, casting="unsafe")
 
 
 def _convert_yuv444_to_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
@@ -178,11 +178,11 @@ def _convert_yuv444_to_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
 
     # Note that NumPy requires the `unsafe` cast here due to the slight loss of precision in RGB<->YUV conversion
     np.clip((Y + V*1.5748),
-            0, 1 << bd, out=grain_out.component_data.R, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.R, casting="unsafe")  # type: ignore
     np.clip((Y - U*0.187324 - V*0.468124),
-            0, 1 << bd, out=grain_out.component_data.G, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.G, casting="unsafe")  # type: ignore
     np.clip((Y + U*1.8556),
-            0, 1 << bd, out=grain_out.component_data.B, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.B, casting="unsafe")  # type: ignore
 
 
 def _convert_v210_to_yuv422_10bit(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
-- 
2.43.0

