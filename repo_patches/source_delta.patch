From 253319925e40b36524afd69818a33f024a062c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 01/42] fix: save writes the project's channel count instead of
 requiring channels

Presets and scores without channels could not be saved at all
(NoModelsFound), and Project.channel_count was ignored.
---
 pyflp/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyflp/__init__.py b/pyflp/__init__.py
index 2029980..562344d 100644
--- a/pyflp/__init__.py
+++ b/pyflp/__init__.py
@@ -184,8 +184,7 @@ def save(project: Project, file: pathlib.Path | str) -> None:
         file: The file in which the contents of :attr:`project` are serialised back.
     """
     buf = bytearray()
-    num_channels = len(project.channels)
-    header = FLP_HEADER.pack(b"FLhd", 6, project.format, num_channels, project.ppq)
+    header = FLP_HEADER.pack(b"FLhd", 6, project.format, project.channel_count, project.ppq)
     buf.extend(header)
     buf.extend(b"FLdt" + (b"\0" * 4))
     total_size = 0
-- 
2.43.0


From 2db1dbf4e7e12606b732f3ffb12f6da7deeb2f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:18 +0000
Subject: [PATCH 02/42] fix: keep event data beyond the known structure when
 saving

Payloads longer than STRUCT (newer FL Studio versions) and partial list
items lost their trailing bytes on save.
---
 pyflp/_events.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 1606e26..0786adb 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -21,6 +21,7 @@ from __future__ import annotations
 
 import abc
 import enum
+import io
 import warnings
 from collections.abc import Callable, Iterable, Iterator, Sequence
 from dataclasses import dataclass, field
@@ -122,7 +123,9 @@ class EventBase(Generic[T]):
 
         self.id = EventEnum(id)
         self._kwds = kwds
-        self.value = self.STRUCT.parse(data, **self._kwds)
+        stream = io.BytesIO(data)
+        self.value = self.STRUCT.parse_stream(stream, **self._kwds)
+        self._extra = stream.read()  # Data beyond the part known to STRUCT
 
     def __eq__(self, o: object) -> bool:
         if not isinstance(o, EventBase):
@@ -136,7 +139,7 @@ class EventBase(Generic[T]):
 
     def __bytes__(self) -> bytes:
         id = c.Byte.build(self.id)
-        data = self.STRUCT.build(self.value, **self._kwds)
+        data = self.STRUCT.build(self.value, **self._kwds) + self._extra
 
         if self.id < TEXT:
             return id + data
-- 
2.43.0


From 048c04dfd11b4874e231cadc496d3842dab01d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:22 +0000
Subject: [PATCH 03/42] fix: write untouched events back verbatim

Booleans other than 0/1, strings without or with several terminators and
values with a lossy conversion were re-encoded differently on save.
---
 pyflp/_events.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 0786adb..7baec26 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -126,6 +126,7 @@ class EventBase(Generic[T]):
         stream = io.BytesIO(data)
         self.value = self.STRUCT.parse_stream(stream, **self._kwds)
         self._extra = stream.read()  # Data beyond the part known to STRUCT
+        self._raw = bytes(data)
 
     def __eq__(self, o: object) -> bool:
         if not isinstance(o, EventBase):
@@ -139,7 +140,11 @@ class EventBase(Generic[T]):
 
     def __bytes__(self) -> bytes:
         id = c.Byte.build(self.id)
-        data = self.STRUCT.build(self.value, **self._kwds) + self._extra
+        data = self._build(self.value)
+
+        # Some values have multiple encodings; don't re-encode untouched ones.
+        if data != self._raw and data == self._build(self.STRUCT.parse(self._raw, **self._kwds)):
+            data = self._raw
 
         if self.id < TEXT:
             return id + data
@@ -147,6 +152,9 @@ class EventBase(Generic[T]):
         length = c.VarInt.build(len(data))
         return id + length + data
 
+    def _build(self, value: T) -> bytes:
+        return self.STRUCT.build(value, **self._kwds) + self._extra
+
     def __repr__(self) -> str:
         return f"<{type(self)!r}(id={self.id!r}, value={self.value!r})>"
 
-- 
2.43.0


From 42593ab599973a086afc676540e6855483d222ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:26 +0000
Subject: [PATCH 04/42] fix: reject a variable sized event cut off by the end
 of file

It was accepted with less data than declared, as if it were complete.
---
 pyflp/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyflp/__init__.py b/pyflp/__init__.py
index 562344d..c8e22ae 100644
--- a/pyflp/__init__.py
+++ b/pyflp/__init__.py
@@ -54,7 +54,7 @@ from pyflp._events import (
     UnicodeEvent,
     UnknownDataEvent,
 )
-from pyflp.exceptions import HeaderCorrupted, VersionNotDetected
+from pyflp.exceptions import HeaderCorrupted, InvalidEventChunkSize, VersionNotDetected
 from pyflp.plugin import PluginID, get_event_by_internal_name
 from pyflp.project import VALID_PPQS, FileFormat, Project, ProjectID
 
@@ -131,6 +131,8 @@ def parse(file: pathlib.Path | str) -> Project:
         else:
             size = c.VarInt.parse_stream(stream)
             value = stream.read(size)
+            if len(value) != size:
+                raise InvalidEventChunkSize(size, len(value))
 
         if id == ProjectID.FLVersion:
             parts = value.decode("ascii").rstrip("\0").split(".")
-- 
2.43.0


From cf141c2b3c6b5bb1a74bb85c8df3bcbbb151c190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:47 +0000
Subject: [PATCH 05/42] fix: round instead of truncating in value conversions

Stretch multipliers and fade start / length drifted by one unit on every
save and a track height of 29% was shown as 28%.
---
 pyflp/_adapters.py   | 4 ++--
 pyflp/arrangement.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index 9895fd9..5d3b898 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -59,7 +59,7 @@ class Log2(SimpleAdapter[int, float]):
         self.factor = factor
 
     def _encode(self, obj: float, *_: Any) -> int:
-        return int(self.factor * math.log2(obj))
+        return round(self.factor * math.log2(obj))
 
     def _decode(self, obj: int, *_: Any) -> float:
         return 2 ** (obj / self.factor)
@@ -80,7 +80,7 @@ class LogNormal(SimpleAdapter[List[int], float]):
         if not obj:  # log2(0.0) --> -inf ==> 0
             return [0, 0]
 
-        return [min(max(self.lo, int(2**12 * (math.log2(obj) + 15))), self.hi), 63]
+        return [min(max(self.lo, round(2**12 * (math.log2(obj) + 15))), self.hi), 63]
 
     def _decode(self, obj: list[int], *_: Any) -> float:
         """Returns a float representation of ``obj[0]`` between 0.0 to 1.0."""
diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 6a96bb8..50f259c 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -122,7 +122,7 @@ class TrackSync(ct.EnumBase):
 
 class HeightAdapter(ct.Adapter[float, float, str, str]):
     def _decode(self, obj: float, *_: Any) -> str:
-        return str(int(obj * 100)) + "%"
+        return str(round(obj * 100)) + "%"
 
     def _encode(self, obj: str, *_: Any) -> float:
         return int(obj[:-1]) / 100
-- 
2.43.0


From dbcd238f2fa2e74c33196df0fda4635725cce461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:52 +0000
Subject: [PATCH 06/42] fix: round tempo to the nearest thousandth when setting
 it

Truncation stored e.g. 130.004 for 130.005 (0.001 BPM off).
---
 pyflp/project.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 6c574b7..a73c589 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -17,7 +17,6 @@ from __future__ import annotations
 
 import datetime
 import enum
-import math
 import pathlib
 from typing import Final, Literal, cast
 
@@ -471,14 +470,14 @@ class Project(EventModel):
             raise ValueError(f"Invalid tempo {value}; expected {MIN_TEMPO}-{max_tempo}")
 
         if ProjectID.Tempo in self.events.ids:
-            self.events.first(ProjectID.Tempo).value = int(value * 1000)
+            self.events.first(ProjectID.Tempo).value = round(value * 1000)
 
+        coarse, fine = divmod(round(value * 1000), 1000)
         if ProjectID._TempoFine in self.events.ids:
-            tempo_fine = int((value - math.floor(value)) * 1000)
-            self.events.first(ProjectID._TempoFine).value = tempo_fine
+            self.events.first(ProjectID._TempoFine).value = fine
 
         if ProjectID._TempoCoarse in self.events.ids:
-            self.events.first(ProjectID._TempoCoarse).value = math.floor(value)
+            self.events.first(ProjectID._TempoCoarse).value = coarse
 
     @property
     def time_spent(self) -> datetime.timedelta | None:
-- 
2.43.0


From ca72fee7ddaffe5e2c0dc25148e4d45453a7e29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:57 +0000
Subject: [PATCH 07/42] fix: order versions with and without a build number

Comparing e.g. 12.9.1.1 with 12.9.1 raised TypeError, which broke tempo,
max_tracks and tracks of such projects.
---
 pyflp/types.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyflp/types.py b/pyflp/types.py
index a9f4632..314e875 100644
--- a/pyflp/types.py
+++ b/pyflp/types.py
@@ -14,6 +14,7 @@
 from __future__ import annotations
 
 import enum
+import functools
 from collections import UserDict, UserList
 from dataclasses import dataclass
 from typing import Any, NamedTuple, TypeVar, Union, TYPE_CHECKING
@@ -29,7 +30,8 @@ ET = TypeVar("ET", bound=Union[ct.EnumBase, enum.IntFlag])
 T_co = TypeVar("T_co", covariant=True)
 
 
-@dataclass(frozen=True, order=True)
+@functools.total_ordering
+@dataclass(frozen=True)
 class FLVersion:
     major: int
     minor: int = 0
@@ -42,6 +44,15 @@ class FLVersion:
             return f"{version}.{self.build}"
         return version
 
+    def __lt__(self, o: object) -> bool:
+        if not isinstance(o, FLVersion):
+            return NotImplemented
+        return self._key() < o._key()
+
+    def _key(self) -> tuple[int, ...]:
+        build = -1 if self.build is None else self.build
+        return self.major, self.minor, self.patch, build
+
 
 class MusicalTime(NamedTuple):
     bars: int
-- 
2.43.0


From 67ceee8a828fc4ee760452cf76d802327a2f9721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:17 +0000
Subject: [PATCH 08/42] fix: inserting into a non-empty event tree

Appending raised IndexError and every ancestor got its own index for the
inserted event, so later changes moved or removed the wrong event.
---
 pyflp/_events.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 7baec26..eb4a1de 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -527,7 +527,12 @@ class EventTree:
 
     def insert(self, pos: int, e: AnyEvent) -> None:
         """Inserts :attr:`ev` at :attr:`pos` in this and all parent trees."""
-        rootidx = sorted(self.indexes)[pos] if len(self) else 0
+        if not len(self):
+            rootidx = 0
+        elif pos == len(self):
+            rootidx = self.lst[-1].r + 1
+        else:
+            rootidx = self.lst[pos].r
 
         # Shift all root indexes after rootidx by +1 to prevent collisions
         # while sorting the entire list by root indexes before serialising.
@@ -535,7 +540,8 @@ class EventTree:
             if ie.r >= rootidx:
                 ie.r += 1
 
-        self._recursive(lambda et: et.lst.add(IndexedEvent(rootidx, e)))  # type: ignore
+        ie = IndexedEvent(rootidx, e)  # Shared, so that future shifts affect all trees
+        self._recursive(lambda et: et.lst.add(ie))  # type: ignore
 
     def pop(self, id: EventEnum, pos: int = 0) -> AnyEvent:
         """Pops the event with ``id`` at ``pos`` in ``self`` and all parents."""
-- 
2.43.0


From 3d1b336dfea62e46a1a5295fcfcb78599171d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:22 +0000
Subject: [PATCH 09/42] fix: EventTree += events keeps the tree

The operator returned None, replacing the tree with None.
---
 pyflp/_events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index eb4a1de..0ef6f4a 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -454,10 +454,11 @@ class EventTree:
 
         return self.lst == o.lst
 
-    def __iadd__(self, *events: AnyEvent) -> None:
+    def __iadd__(self, events: Iterable[AnyEvent]) -> EventTree:
         """Analogous to :meth:`list.extend`."""
         for event in events:
             self.append(event)
+        return self
 
     def __iter__(self) -> Iterator[AnyEvent]:
         return (ie.e for ie in self.lst)
-- 
2.43.0


From a9025a85ce121a0c0e7cc610b59e3fa2af336d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:27 +0000
Subject: [PATCH 10/42] fix: compare events and not just their indexes in
 EventTree equality

Any two projects (or other models) with the same number of events were equal.
---
 pyflp/_events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 0ef6f4a..8c01cba 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -452,7 +452,7 @@ class EventTree:
         if not isinstance(o, EventTree):
             return NotImplemented
 
-        return self.lst == o.lst
+        return self.lst == o.lst and all(a == b for a, b in zip(self, o))
 
     def __iadd__(self, events: Iterable[AnyEvent]) -> EventTree:
         """Analogous to :meth:`list.extend`."""
-- 
2.43.0


From 36ed4c9c6d2ef2d8ed4f59d1b2c4036d827e3407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:46 +0000
Subject: [PATCH 11/42] fix: don't divide an event tree without a separator

Iterating the rack of a file without channels raised KeyError and an
arrangement without tracks yielded a bogus track.
---
 pyflp/_events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 8c01cba..88353f1 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -503,7 +503,8 @@ class EventTree:
 
             if ie.e.id in ids:
                 el.append(ie)
-        yield EventTree(self, el)  # Yield the last one
+        if not first:
+            yield EventTree(self, el)  # Yield the last one
 
     def first(self, id: EventEnum) -> AnyEvent:
         """Returns the first event with :attr:`id`.
-- 
2.43.0


From d597d5946c58b32ee3803ffbaf0ff095739be5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:51 +0000
Subject: [PATCH 12/42] fix: yield the last subtree when the events end

The last arrangement was lost unless followed by a 'current' event.
---
 pyflp/_events.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 88353f1..5d39293 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -610,6 +610,9 @@ class EventTree:
             elif result is not None:
                 el.append(ie)
 
+        if repeat and el:
+            yield EventTree(self, el)
+
     @property
     def ids(self) -> frozenset[EventEnum]:
         return frozenset(ie.e.id for ie in self.lst)
-- 
2.43.0


From 8a114473479f524739a6c4283938b851386dfe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:30 +0000
Subject: [PATCH 13/42] fix: attribute an insert's output to the insert it
 belongs to

The output event ends an insert but was handed to the following one, so
Insert.output was None for Master and shifted by one for all others.
---
 pyflp/mixer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index be1688a..83700d2 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -598,12 +598,15 @@ class Mixer(EventModel, ModelCollection[Insert]):
         raise ModelNotFound(i)
 
     def __iter__(self) -> Iterator[Insert]:
+        ended = False
+
         def select(e: AnyEvent) -> bool | None:
-            if e.id == InsertID.Output:
-                return False
+            nonlocal ended
 
             if e.id in (*InsertID, *PluginID, *SlotID):
-                return True
+                began = ended
+                ended = e.id == InsertID.Output  # The last event of an insert
+                return not began
 
         params: dict[int, _InsertItems] = {}
         if MixerID.Params in self.events.ids:
-- 
2.43.0


From b8a37b980de522c37acaaf8168ef7f0190b9b454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:38 +0000
Subject: [PATCH 14/42] fix: number inserts as documented, 0 for master and -1
 for current

The master insert is stored first, but was numbered -1, so mixer[0] returned
the first regular insert and mixer[-1] master.
---
 pyflp/mixer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 83700d2..2ad59e5 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -592,8 +592,8 @@ class Mixer(EventModel, ModelCollection[Insert]):
             ModelNotFound: An :class:`Insert` with the specifcied name or index
                 isn't found.
         """
-        for idx, insert in enumerate(self):
-            if (isinstance(i, int) and idx == i + 1) or i == insert.name:
+        for insert in self:
+            if (isinstance(i, int) and insert.iid == i) or i == insert.name:
                 return insert
         raise ModelNotFound(i)
 
@@ -612,11 +612,14 @@ class Mixer(EventModel, ModelCollection[Insert]):
         if MixerID.Params in self.events.ids:
             params = cast(MixerParamsEvent, self.events.first(MixerID.Params)).items_
 
+        # Master is stored first and the "current" insert last
+        last = self.events.count(InsertID.Flags) - 1
         for i, ed in enumerate(self.events.subtrees(select, self.max_inserts)):
+            iid = -1 if 0 < i == last else i
             if i in params:
-                yield Insert(ed, iid=i - 1, max_slots=self.max_slots, params=params[i])
+                yield Insert(ed, iid=iid, max_slots=self.max_slots, params=params[i])
             else:
-                yield Insert(ed, iid=i - 1, max_slots=self.max_slots)
+                yield Insert(ed, iid=iid, max_slots=self.max_slots)
 
     def __len__(self) -> int:
         """Returns the number of inserts present in the project.
-- 
2.43.0


From 515c0a3233893f53a68d10564ed4a8e90c2f03ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:43 +0000
Subject: [PATCH 15/42] fix: slot enabled and mix, inserts without parameters

Accessing Slot.enabled or Slot.mix raised AttributeError, as did iterating or
reading inserts for which no mixer parameters are stored (KeyError).
---
 pyflp/mixer.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 2ad59e5..03b489c 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -295,16 +295,21 @@ class _MixerParamProp(RWProperty[T]):
     def __init__(self, id: int) -> None:
         self._id = id
 
-    def __get__(self, ins: Insert, owner: object = None) -> T | None:
+    @staticmethod
+    def _get_items(ins: Insert | Slot) -> dict[int, dict[str, Any]]:
+        params = ins._kw["params"]
+        return params.own if isinstance(params, _InsertItems) else params
+
+    def __get__(self, ins: Insert | Slot, owner: object = None) -> T | None:
         if owner is None:
             return NotImplemented
 
-        for id, item in cast(_InsertItems, ins._kw["params"]).own.items():
+        for id, item in self._get_items(ins).items():
             if id == self._id:
                 return item["msg"]
 
-    def __set__(self, ins: Insert, value: T) -> None:
-        for id, item in cast(_InsertItems, ins._kw["params"]).own.items():
+    def __set__(self, ins: Insert | Slot, value: T) -> None:
+        for id, item in self._get_items(ins).items():
             if id == self._id:
                 item["msg"] = value
                 return
@@ -317,8 +322,8 @@ class Slot(EventModel):
     ![](https://bit.ly/3RUDtTu)
     """
 
-    def __init__(self, events: EventTree, params: list[dict[str, Any]] | None = None) -> None:
-        super().__init__(events, params=params or [])
+    def __init__(self, events: EventTree, params: dict[int, dict[str, Any]] | None = None) -> None:
+        super().__init__(events, params=params or {})
 
     def __repr__(self) -> str:
         return f"Slot (name={self.name}, iid={self.index}, plugin={self.plugin!r})"
@@ -616,10 +621,8 @@ class Mixer(EventModel, ModelCollection[Insert]):
         last = self.events.count(InsertID.Flags) - 1
         for i, ed in enumerate(self.events.subtrees(select, self.max_inserts)):
             iid = -1 if 0 < i == last else i
-            if i in params:
-                yield Insert(ed, iid=iid, max_slots=self.max_slots, params=params[i])
-            else:
-                yield Insert(ed, iid=iid, max_slots=self.max_slots)
+            items = params.get(i) or _InsertItems()
+            yield Insert(ed, iid=iid, max_slots=self.max_slots, params=items)
 
     def __len__(self) -> int:
         """Returns the number of inserts present in the project.
-- 
2.43.0


From a4390d979f5977c8bf67c4beaf53dd690585d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:48 +0000
Subject: [PATCH 16/42] fix: EQ band properties without a stored parameter

They raised KeyError instead of returning None / raising PropertyCannotBeSet.
---
 pyflp/mixer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 03b489c..276edc2 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -194,9 +194,12 @@ class _InsertEQBandProp(NamedPropMixin, RWProperty[int]):
     def __get__(self, ins: InsertEQBand, owner: Any = None) -> int | None:
         if owner is None:
             return NotImplemented
-        return ins._kw[self._prop]["msg"]
+        if self._prop in ins._kw:
+            return ins._kw[self._prop]["msg"]
 
     def __set__(self, ins: InsertEQBand, value: int) -> None:
+        if self._prop not in ins._kw:
+            raise PropertyCannotBeSet
         ins._kw[self._prop]["msg"] = value
 
 
-- 
2.43.0


From 0219ab6adf6c1a7f88ae370f7e128b0578a4907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 17/42] fix: match insert routes with their own send levels

Routing flags were paired with whatever parameters came first (volume, pan,
EQ...) instead of the send level of the routed insert.
---
 pyflp/mixer.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 276edc2..f126911 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -521,16 +521,15 @@ class Insert(EventModel, ModelCollection[Slot]):
 
         *New in FL Studio v4.0*.
         """
-        items = iter(cast(InsertRoutingEvent, self.events.first(InsertID.Routing)))
-        for id, item in cast(_InsertItems, self._kw["params"]).own.items():
-            if id >= _MixerParamsID.RouteVolStart:
-                try:
-                    cond = next(items)
-                except StopIteration:
-                    continue
-                else:
-                    if cond:
-                        yield item["msg"]
+        if InsertID.Routing not in self.events.ids:
+            return
+
+        params = cast(_InsertItems, self._kw["params"]).own
+        routes = cast(InsertRoutingEvent, self.events.first(InsertID.Routing))
+        for idx, routed in enumerate(routes):
+            id = _MixerParamsID.RouteVolStart + idx
+            if routed and id < _MixerParamsID.Volume and id in params:
+                yield params[id]["msg"]
 
     separator_shown = FlagProp(_InsertFlags.SeparatorShown, InsertID.Flags)
     """Whether separator is shown before the insert.
-- 
2.43.0


From 980cc04a3181fe2f8ac02c30b7d2c65e05027bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:18 +0000
Subject: [PATCH 18/42] fix: don't hand plugins of mixer slots to the last
 channel

E.g. a last channel without plugin data exposed the plugin of a mixer slot.
---
 pyflp/project.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index a73c589..38cce8e 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -208,9 +208,16 @@ class Project(EventModel):
     def channels(self) -> ChannelRack:
         """Provides an iterator over channels and channel rack properties."""
 
+        inserts_began = False
+
         def select(e: AnyEvent) -> bool | None:
+            nonlocal inserts_began
             if e.id == InsertID.Flags:
-                return False
+                inserts_began = True
+
+            # * Prevents passing on plugins of the mixer slots to the last channel
+            if e.id in PluginID and inserts_began:
+                return None
 
             if e.id in (*ChannelID, *DisplayGroupID, *PluginID, *RackID):
                 return True
-- 
2.43.0


From 9f7a28d4d796ffe64d3a6834339b95b6be4e95bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:34 +0000
Subject: [PATCH 19/42] fix: layer children stored after the layer

While iterating or looking up a layer, children which come after it in the
rack weren't known yet and accessing them raised KeyError.
---
 pyflp/channel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index ae0c53f..60068c1 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -1583,8 +1583,9 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
                     ct = Sampler
 
             if iid is not None:
-                cur_ch = ch_dict[iid] = ct(et, channels=ch_dict, group=groups[groupnum])
-                yield cur_ch
+                ch_dict[iid] = ct(et, channels=ch_dict, group=groups[groupnum])
+
+        yield from ch_dict.values()  # Once complete; layers refer to other channels
 
     def __len__(self) -> int:
         """Returns the number of channels found in the project.
-- 
2.43.0


From b4fee99173719f43c8dde684c344fd18b02874da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:39 +0000
Subject: [PATCH 20/42] fix: setting reverb mix replaces the mix instead of
 adding to it

---
 pyflp/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 60068c1..86e2a97 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -651,7 +651,7 @@ class Reverb(EventModel, ModelReprMixin):
         if ChannelID.Reverb not in self.events.ids:
             raise PropertyCannotBeSet(ChannelID.Reverb)
 
-        self.events.first(ChannelID.Reverb).value += value
+        self.events.first(ChannelID.Reverb).value = self.type + value
 
 
 class FX(EventModel, ModelReprMixin):
-- 
2.43.0


From e6870a0d92b86c5a5f402247103b886bb2e0046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:23 +0000
Subject: [PATCH 21/42] fix: arpeggiator properties use the keys of the
 parameters struct

All of them raised KeyError.
---
 pyflp/channel.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 86e2a97..bfcf4f4 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -448,26 +448,26 @@ class Arp(EventModel, ModelReprMixin):
     ![](https://bit.ly/3Lbk7Yi)
     """
 
-    chord = StructProp[int]()
+    chord = StructProp[int](prop="arp.chord")
     """Index of the selected arpeggio chord."""
 
-    direction = StructProp[ArpDirection]()
-    gate = StructProp[float]()
+    direction = StructProp[ArpDirection](prop="arp.direction")
+    gate = StructProp[float](prop="arp.gate")
     """Delay between two successive notes played."""
 
-    range = StructProp[int]()
+    range = StructProp[int](prop="arp.range")
     """Range (in octaves)."""
 
-    repeat = StructProp[int]()
+    repeat = StructProp[int](prop="arp.repeat")
     """Number of times a note is repeated.
 
     *New in FL Studio v4.5.2*.
     """
 
-    slide = StructProp[bool]()
+    slide = StructProp[bool](prop="arp.slide")
     """Whether arpeggio will slide between notes."""
 
-    time = StructProp[float]()
+    time = StructProp[float](prop="arp.time")
     """Delay between two successive notes played."""
 
 
-- 
2.43.0


From 17ed7985e6a10d990c1aa1d11ea11d0129abd575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:29 +0000
Subject: [PATCH 22/42] fix: properties of models without any events

E.g. polyphony, arp or level adjusts of channels which don't store them raised
IndexError instead of returning None / raising PropertyCannotBeSet.
---
 pyflp/_descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_descriptors.py b/pyflp/_descriptors.py
index 22b5e34..1112615 100644
--- a/pyflp/_descriptors.py
+++ b/pyflp/_descriptors.py
@@ -74,7 +74,7 @@ class PropBase(abc.ABC, RWProperty[T]):
             if len(ins.events) > 1:  # Prevent ambiguous situations
                 raise LookupError("Event ID not specified")
 
-            return tuple(ins.events)[0]
+            return next(iter(ins.events), None)
 
         for id in self._ids:
             if id in ins.events:
-- 
2.43.0


From d9bd5dee5aab0243c6edba6010ac19dfae7dd7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:34 +0000
Subject: [PATCH 23/42] fix: delay mod X / Y of channels without them

They raised KeyError instead of returning None / raising PropertyCannotBeSet.
---
 pyflp/channel.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index bfcf4f4..310c4a5 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -497,22 +497,30 @@ class Delay(EventModel, ModelReprMixin):
     """
 
     @property
-    def mod_x(self) -> int:
+    def mod_x(self) -> int | None:
         """Min = 0. Max = 256. Default = 128."""
-        return self.events.first(ChannelID.DelayModXY).value[0]
+        if ChannelID.DelayModXY in self.events.ids:
+            return self.events.first(ChannelID.DelayModXY).value[0]
 
     @mod_x.setter
     def mod_x(self, value: int) -> None:
+        if ChannelID.DelayModXY not in self.events.ids:
+            raise PropertyCannotBeSet(ChannelID.DelayModXY)
+
         event = self.events.first(ChannelID.DelayModXY)
         event.value = (value, event.value[1])
 
     @property
-    def mod_y(self) -> int:
+    def mod_y(self) -> int | None:
         """Min = 0. Max = 256. Default = 128."""
-        return self.events.first(ChannelID.DelayModXY).value[1]
+        if ChannelID.DelayModXY in self.events.ids:
+            return self.events.first(ChannelID.DelayModXY).value[1]
 
     @mod_y.setter
     def mod_y(self, value: int) -> None:
+        if ChannelID.DelayModXY not in self.events.ids:
+            raise PropertyCannotBeSet(ChannelID.DelayModXY)
+
         event = self.events.first(ChannelID.DelayModXY)
         event.value = (event.value[0], value)
 
-- 
2.43.0


From 02f71cb9840f69c9e422fd44b9603f9be2dd3aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:38 +0000
Subject: [PATCH 24/42] fix: setting a flag whose field isn't stored

It raised TypeError instead of PropertyCannotBeSet.
---
 pyflp/_descriptors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/_descriptors.py b/pyflp/_descriptors.py
index 1112615..e93f3c7 100644
--- a/pyflp/_descriptors.py
+++ b/pyflp/_descriptors.py
@@ -158,6 +158,9 @@ class FlagProp(PropBase[bool]):
             value = not value
 
         if isinstance(ev_or_ins, (ItemModel, StructEventBase)):
+            if ev_or_ins[self._prop] is None:
+                raise PropertyCannotBeSet(*self._ids)
+
             if value:
                 ev_or_ins[self._prop] |= self._flag
             else:
-- 
2.43.0


From c77e72d855d6aebec6ee890a922dbeda78ce914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:52 +0000
Subject: [PATCH 25/42] fix: setting a note's key by name

It always raised ValueError, after changing the key for natural notes.
---
 pyflp/pattern.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyflp/pattern.py b/pyflp/pattern.py
index 60b8a4b..4f1f43f 100644
--- a/pyflp/pattern.py
+++ b/pyflp/pattern.py
@@ -156,9 +156,10 @@ class Note(ItemModel[NotesEvent]):
             self["key"] = value
         else:
             for i, name in enumerate(self._NOTE_NAMES):
-                if value.startswith(name):
-                    octave = int(value.replace(name, "", 1))
-                    self["key"] = octave * 12 + i
+                octave = value[len(name) :]
+                if value.startswith(name) and octave.isdecimal():
+                    self.key = int(octave) * 12 + i
+                    return
             raise ValueError(f"Invalid key name: {value}")
 
     length = StructProp[int]()
-- 
2.43.0


From 7575f161f93443d0b1a0582ab5a6ca88f1b1d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:11 +0000
Subject: [PATCH 26/42] fix: remote controller parameter and VST flag

The stored value was compared to None before being used, so parameter was
always 1 and controls_vst always False.
---
 pyflp/controller.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyflp/controller.py b/pyflp/controller.py
index e0fa90e..ec1cc67 100644
--- a/pyflp/controller.py
+++ b/pyflp/controller.py
@@ -57,10 +57,8 @@ class RemoteController(EventModel, ModelReprMixin):
     @property
     def parameter(self) -> int | None:
         """The ID of the plugin parameter to which controller is linked to."""
-        if (
-            value := cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
-            is not None
-        ):
+        event = cast(StructEventBase, self.events.first(ControllerID.Remote))
+        if (value := event["parameter_data"]) is not None:
             return value & 0x7FFF
 
     @property
@@ -69,8 +67,6 @@ class RemoteController(EventModel, ModelReprMixin):
 
         None when linked to a plugin parameter on an insert slot.
         """
-        if (
-            value := cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
-            is not None
-        ):
+        event = cast(StructEventBase, self.events.first(ControllerID.Remote))
+        if (value := event["parameter_data"]) is not None:
             return (value & 0x8000) > 0
-- 
2.43.0


From 700467ea01c331cd3b294d20e696405ee5ebef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:15 +0000
Subject: [PATCH 27/42] fix: setting a VST flag changes that flag

The lowest bit was set (or nothing was cleared) instead.
---
 pyflp/plugin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 6afba1d..ddea487 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -496,9 +496,9 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
         for e in event["events"]:
             if e["id"] == self._id:
                 if value:
-                    e["data"][self._prop] |= value
+                    e["data"][self._prop] |= self._flag
                 else:
-                    e["data"][self._prop] &= ~value
+                    e["data"][self._prop] &= ~self._flag
                 break
 
 
-- 
2.43.0


From 0cfde9fe7c9a42dae15e612b5367752da9151b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:37 +0000
Subject: [PATCH 28/42] fix: setting VST MIDI ports, pitch bend range and fast
 idle

The whole group of options was replaced by the value, which made saving fail.
---
 pyflp/plugin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index ddea487..53b0988 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -473,7 +473,10 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
     def _set(self, event: VSTPluginEvent, value: T) -> None:
         for e in event["events"]:
             if e["id"] == self._id:
-                e["data"] = value
+                if isinstance(e["data"], (str, bytes)):
+                    e["data"] = value
+                else:
+                    e["data"][self._prop] = value
                 break
 
 
-- 
2.43.0


From 925324d82d2aac3b29b210ea4818513705d62314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:53 +0000
Subject: [PATCH 29/42] fix: report VST properties which aren't stored

Setting them was silently ignored and reading flags of a short options block
raised TypeError.
---
 pyflp/plugin.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 53b0988..ff6d3e3 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -37,6 +37,7 @@ from pyflp._events import (
     UnknownDataEvent,
 )
 from pyflp._models import EventModel, ModelReprMixin
+from pyflp.exceptions import PropertyCannotBeSet
 from pyflp.types import T
 
 __all__ = [
@@ -475,9 +476,12 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
             if e["id"] == self._id:
                 if isinstance(e["data"], (str, bytes)):
                     e["data"] = value
+                elif e["data"][self._prop] is None:
+                    break
                 else:
                     e["data"][self._prop] = value
-                break
+                return
+        raise PropertyCannotBeSet(self._id)
 
 
 class _VSTFlagProp(_VSTPluginProp[bool]):
@@ -488,7 +492,10 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
         self._flag = flag
         self._inverted = inverted
 
-    def _get(self, value: Any) -> bool:
+    def _get(self, value: Any) -> bool | None:
+        if value[self._prop] is None:
+            return None
+
         retbool = self._flag in value[self._prop]
         return retbool if not self._inverted else not retbool
 
@@ -497,12 +504,13 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
             value = not value
 
         for e in event["events"]:
-            if e["id"] == self._id:
+            if e["id"] == self._id and e["data"][self._prop] is not None:
                 if value:
                     e["data"][self._prop] |= self._flag
                 else:
                     e["data"][self._prop] &= ~self._flag
-                break
+                return
+        raise PropertyCannotBeSet(self._id)
 
 
 class PluginIOInfo(EventModel):
-- 
2.43.0


From fa9b18c369125443df5b158cc74f840ceae8bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:58 +0000
Subject: [PATCH 30/42] fix: wrapper flags are 32 bits wide

directx lies beyond the first 16 bits; it always read False and setting it
made saving fail.
---
 pyflp/plugin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index ff6d3e3..b56f61e 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -213,8 +213,7 @@ class WrapperPage(ct.EnumBase):
 class WrapperEvent(StructEventBase):
     STRUCT = c.Struct(
         "_u1" / c.Optional(c.Bytes(16)),  # 16
-        "flags" / c.Optional(StdEnum[_WrapperFlags](c.Int16ul)),  # 18
-        "_u2" / c.Optional(c.Bytes(2)),  # 20
+        "flags" / c.Optional(StdEnum[_WrapperFlags](c.Int32ul)),  # 20
         "page" / c.Optional(StdEnum[WrapperPage](c.Int8ul)),  # 21
         "_u3" / c.Optional(c.Bytes(23)),  # 44
         "width" / c.Optional(c.Int32ul),  # 48
-- 
2.43.0


From 1106243eddec510bc912ef9b6a92b1ac026510db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:20 +0000
Subject: [PATCH 31/42] fix: slicing model collections

Open ended slices raised TypeError; negative bounds and steps were ignored.
---
 pyflp/_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_models.py b/pyflp/_models.py
index 52a5c91..a2a68ff 100644
--- a/pyflp/_models.py
+++ b/pyflp/_models.py
@@ -111,7 +111,7 @@ def supports_slice(func: Callable[[ModelCollection[MT_co], str | int | slice], M
     @functools.wraps(func)
     def wrapper(self: Any, i: Any) -> MT_co | Sequence[MT_co]:
         if isinstance(i, slice):
-            return [model for idx, model in enumerate(self) if idx in range(i.start, i.stop)]
+            return list(self)[i]
         return func(self, i)
 
     return wrapper
-- 
2.43.0


From 4be0eea4d71ef0e571001ad28310a574e0dfd710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:34 +0000
Subject: [PATCH 32/42] fix: a refused loop position leaves the stored one
 unchanged

The start was already changed when setting the missing end failed.
---
 pyflp/arrangement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 50f259c..335cd96 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -529,7 +529,7 @@ class Arrangements(EventModel, ModelCollection[Arrangement]):
     def loop_pos(self, value: tuple[int, int]) -> None:
         if ArrangementsID.PLSelection in self.events:
             event = cast(PLSelectionEvent, self.events.first(ArrangementsID.PLSelection))
-            event["start"], event["end"] = value
+            event["end"], event["start"] = reversed(value)  # Stored last, fails first
         elif ArrangementsID._LoopPos in self.events:
             self.events.first(ArrangementsID._LoopPos).value = value
         else:
-- 
2.43.0


From b41346233b5f863294914093de2c80983aaddecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:39 +0000
Subject: [PATCH 33/42] fix: playlists with a multiple of 15 items from before
 FL Studio 21

15 old items take as much space as 8 new ones and were parsed as such.
---
 pyflp/arrangement.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 335cd96..e989592 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -87,7 +87,10 @@ class PlaylistEvent(ListEventBase):
     SIZES = [32, 60]
 
     def __init__(self, id: EventEnum, data: bytes) -> None:
-        super().__init__(id, data, new=not len(data) % 60)
+        new = not len(data) % 60
+        if new and not len(data) % 32:  # Both sizes fit, check `pattern_base`s
+            new = any(data[i + 4 : i + 6] != b"\x00\x50" for i in range(0, len(data), 32))
+        super().__init__(id, data, new=new)
 
 
 @enum.unique
-- 
2.43.0


From 2ac3dc42224d3043ec13be0e406bee4bc779a1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:49 +0000
Subject: [PATCH 34/42] fix: signed parameters of Fruity Balance and Fruity
 Stereo Enhancer

Their documented ranges are negative to positive; negative values were read as
4294967168 etc. and setting them made saving fail.
---
 pyflp/plugin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index b56f61e..4e699ac 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -97,7 +97,7 @@ class FruitKickEvent(StructEventBase):
 
 
 class FruityBalanceEvent(StructEventBase):
-    STRUCT = c.Struct("pan" / c.Int32ul, "volume" / c.Int32ul).compile()
+    STRUCT = c.Struct("pan" / c.Int32sl, "volume" / c.Int32ul).compile()
 
 
 class FruityBloodOverdriveEvent(StructEventBase):
@@ -164,8 +164,8 @@ class FruityStereoEnhancerEvent(StructEventBase):
     STRUCT = c.Struct(
         "pan" / c.Int32sl,
         "volume" / c.Int32ul,
-        "stereo_separation" / c.Int32ul,
-        "phase_offset" / c.Int32ul,
+        "stereo_separation" / c.Int32sl,
+        "phase_offset" / c.Int32sl,
         "effect_position" / c.Enum(c.Int32ul, pre=0, post=1),
         "phase_inversion" / c.Enum(c.Int32ul, none=0, left=1, right=2),
     ).compile()
-- 
2.43.0


From 1aa2dfb801cc66503afc844a8fa4a9a630733bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:32 +0000
Subject: [PATCH 35/42] fix: optional fields of structures don't drop values,
 grow or take over cut-off ones

---
 pyflp/_adapters.py   |  25 +++++++
 pyflp/arrangement.py |  36 +++++-----
 pyflp/channel.py     | 156 +++++++++++++++++++++----------------------
 pyflp/controller.py  |  15 +++--
 pyflp/mixer.py       |   8 +--
 pyflp/plugin.py      |  30 ++++-----
 6 files changed, 148 insertions(+), 122 deletions(-)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index 5d3b898..fb2448b 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -31,6 +31,31 @@ FourByteBool: c.ExprAdapter[int, int, bool, int] = c.ExprAdapter(
 )
 
 
+class Maybe(c.Subconstruct):  # type: ignore[type-arg]
+    """A field absent from payloads which end before it.
+
+    Unlike ``c.Optional``, ``None`` is all it omits: a value which can't be built
+    raises, and the rest of a field that's cut off isn't taken for the next one.
+    """
+
+    def __init__(self, subcon: Any) -> None:
+        super().__init__(subcon)
+        self.flagbuildnone = True
+
+    def _parse(self, stream: Any, context: Any, path: Any) -> Any:
+        fallback = stream.tell()
+        if not context.get("_cut_off"):
+            try:
+                return self.subcon._parsereport(stream, context, path)
+            except c.StreamError:
+                stream.seek(fallback)
+                context["_cut_off"] = True
+
+    def _build(self, obj: Any, stream: Any, context: Any, path: Any) -> Any:
+        if obj is not None:
+            return self.subcon._build(obj, stream, context, path)
+
+
 class List2Tuple(SimpleAdapter[Any, Tuple[int, int]]):
     def _decode(self, obj: c.ListContainer[int], *_: Any) -> tuple[int, int]:
         _1, _2 = tuple(obj)
diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index e989592..ba984a6 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -22,7 +22,7 @@ import construct as c
 import construct_typed as ct
 from typing_extensions import TypedDict, Unpack
 
-from pyflp._adapters import FourByteBool, StdEnum
+from pyflp._adapters import FourByteBool, Maybe, StdEnum
 from pyflp._descriptors import EventProp, NestedProp, StructProp
 from pyflp._events import (
     DATA,
@@ -64,7 +64,7 @@ __all__ = [
 
 
 class PLSelectionEvent(StructEventBase):
-    STRUCT = c.Struct("start" / c.Optional(c.Int32ul), "end" / c.Optional(c.Int32ul)).compile()
+    STRUCT = c.Struct("start" / Maybe(c.Int32ul), "end" / Maybe(c.Int32ul)).compile()
 
 
 class PlaylistEvent(ListEventBase):
@@ -133,22 +133,22 @@ class HeightAdapter(ct.Adapter[float, float, str, str]):
 
 class TrackEvent(StructEventBase):
     STRUCT = c.Struct(
-        "iid" / c.Optional(c.Int32ul),  # 4
-        "color" / c.Optional(c.Int32ul),  # 8
-        "icon" / c.Optional(c.Int32ul),  # 12
-        "enabled" / c.Optional(c.Flag),  # 13
-        "height" / c.Optional(HeightAdapter(c.Float32l)),  # 17
-        "locked_height" / c.Optional(c.Int32sl),  # 21
-        "content_locked" / c.Optional(c.Flag),  # 22
-        "motion" / c.Optional(StdEnum[TrackMotion](c.Int32ul)),  # 26
-        "press" / c.Optional(StdEnum[TrackPress](c.Int32ul)),  # 30
-        "trigger_sync" / c.Optional(StdEnum[TrackSync](c.Int32ul)),  # 34
-        "queued" / c.Optional(FourByteBool),  # 38
-        "tolerant" / c.Optional(FourByteBool),  # 42
-        "position_sync" / c.Optional(StdEnum[TrackSync](c.Int32ul)),  # 46
-        "grouped" / c.Optional(c.Flag),  # 47
-        "locked" / c.Optional(c.Flag),  # 48
-        "_u1" / c.Optional(c.GreedyBytes),  # * 66 as of 20.9.1
+        "iid" / Maybe(c.Int32ul),  # 4
+        "color" / Maybe(c.Int32ul),  # 8
+        "icon" / Maybe(c.Int32ul),  # 12
+        "enabled" / Maybe(c.Flag),  # 13
+        "height" / Maybe(HeightAdapter(c.Float32l)),  # 17
+        "locked_height" / Maybe(c.Int32sl),  # 21
+        "content_locked" / Maybe(c.Flag),  # 22
+        "motion" / Maybe(StdEnum[TrackMotion](c.Int32ul)),  # 26
+        "press" / Maybe(StdEnum[TrackPress](c.Int32ul)),  # 30
+        "trigger_sync" / Maybe(StdEnum[TrackSync](c.Int32ul)),  # 34
+        "queued" / Maybe(FourByteBool),  # 38
+        "tolerant" / Maybe(FourByteBool),  # 42
+        "position_sync" / Maybe(StdEnum[TrackSync](c.Int32ul)),  # 46
+        "grouped" / Maybe(c.Flag),  # 47
+        "locked" / Maybe(c.Flag),  # 48
+        "_u1" / Maybe(c.GreedyBytes),  # * 66 as of 20.9.1
     ).compile()
 
 
diff --git a/pyflp/channel.py b/pyflp/channel.py
index 310c4a5..3981aec 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -22,7 +22,7 @@ from typing import Any, Iterator, Literal, Tuple, cast
 import construct as c
 import construct_typed as ct
 
-from pyflp._adapters import LinearMusical, List2Tuple, Log2, LogNormal, StdEnum
+from pyflp._adapters import LinearMusical, List2Tuple, Log2, LogNormal, Maybe, StdEnum
 from pyflp._descriptors import EventProp, FlagProp, NestedProp, StructProp
 from pyflp._events import (
     DATA,
@@ -121,11 +121,11 @@ class AutomationEvent(StructEventBase):
 
 class DelayEvent(StructEventBase):
     STRUCT = c.Struct(
-        "feedback" / c.Optional(c.Int32ul),
-        "pan" / c.Optional(c.Int32sl),
-        "pitch_shift" / c.Optional(c.Int32sl),
-        "echoes" / c.Optional(c.Int32ul),
-        "time" / c.Optional(c.Int32ul),
+        "feedback" / Maybe(c.Int32ul),
+        "pan" / Maybe(c.Int32sl),
+        "pitch_shift" / Maybe(c.Int32sl),
+        "echoes" / Maybe(c.Int32ul),
+        "time" / Maybe(c.Int32ul),
     ).compile()
 
 
@@ -149,33 +149,33 @@ class LFOShape(ct.EnumBase):
 # FL Studio 2.5.0+
 class EnvelopeLFOEvent(StructEventBase):
     STRUCT = c.Struct(
-        "flags" / c.Optional(StdEnum[_EnvLFOFlags](c.Int32sl)),  # 4
-        "envelope.enabled" / c.Optional(c.Int32sl),  # 8
-        "envelope.predelay" / c.Optional(c.Int32sl),  # 12
-        "envelope.attack" / c.Optional(c.Int32sl),  # 16
-        "envelope.hold" / c.Optional(c.Int32sl),  # 20
-        "envelope.decay" / c.Optional(c.Int32sl),  # 24
-        "envelope.sustain" / c.Optional(c.Int32sl),  # 28
-        "envelope.release" / c.Optional(c.Int32sl),  # 32
-        "envelope.amount" / c.Optional(c.Int32sl),  # 36
-        "lfo.predelay" / c.Optional(c.Int32ul),  # 40
-        "lfo.attack" / c.Optional(c.Int32ul),  # 44
-        "lfo.amount" / c.Optional(c.Int32sl),  # 48
-        "lfo.speed" / c.Optional(c.Int32ul),  # 52
-        "lfo.shape" / c.Optional(StdEnum[LFOShape](c.Int32sl)),  # 56
-        "envelope.attack_tension" / c.Optional(c.Int32sl),  # 60
-        "envelope.decay_tension" / c.Optional(c.Int32sl),  # 64
-        "envelope.release_tension" / c.Optional(c.Int32sl),  # 68
+        "flags" / Maybe(StdEnum[_EnvLFOFlags](c.Int32sl)),  # 4
+        "envelope.enabled" / Maybe(c.Int32sl),  # 8
+        "envelope.predelay" / Maybe(c.Int32sl),  # 12
+        "envelope.attack" / Maybe(c.Int32sl),  # 16
+        "envelope.hold" / Maybe(c.Int32sl),  # 20
+        "envelope.decay" / Maybe(c.Int32sl),  # 24
+        "envelope.sustain" / Maybe(c.Int32sl),  # 28
+        "envelope.release" / Maybe(c.Int32sl),  # 32
+        "envelope.amount" / Maybe(c.Int32sl),  # 36
+        "lfo.predelay" / Maybe(c.Int32ul),  # 40
+        "lfo.attack" / Maybe(c.Int32ul),  # 44
+        "lfo.amount" / Maybe(c.Int32sl),  # 48
+        "lfo.speed" / Maybe(c.Int32ul),  # 52
+        "lfo.shape" / Maybe(StdEnum[LFOShape](c.Int32sl)),  # 56
+        "envelope.attack_tension" / Maybe(c.Int32sl),  # 60
+        "envelope.decay_tension" / Maybe(c.Int32sl),  # 64
+        "envelope.release_tension" / Maybe(c.Int32sl),  # 68
     ).compile()
 
 
 class LevelAdjustsEvent(StructEventBase):
     STRUCT = c.Struct(
-        "pan" / c.Optional(c.Int32sl),  # 4
-        "volume" / c.Optional(c.Int32ul),  # 8
-        "_u1" / c.Optional(c.Int32ul),  # 12
-        "mod_x" / c.Optional(c.Int32sl),  # 16
-        "mod_y" / c.Optional(c.Int32sl),  # 20
+        "pan" / Maybe(c.Int32sl),  # 4
+        "volume" / Maybe(c.Int32ul),  # 8
+        "_u1" / Maybe(c.Int32ul),  # 12
+        "mod_x" / Maybe(c.Int32sl),  # 16
+        "mod_y" / Maybe(c.Int32sl),  # 20
     ).compile()
 
 
@@ -192,12 +192,12 @@ class FilterType(ct.EnumBase):
 
 class LevelsEvent(StructEventBase):
     STRUCT = c.Struct(
-        "pan" / c.Optional(c.Int32sl),  # 4
-        "volume" / c.Optional(c.Int32ul),  # 8
-        "pitch_shift" / c.Optional(c.Int32sl),  # 12
-        "filter.mod_x" / c.Optional(c.Int32ul),  # 16
-        "filter.mod_y" / c.Optional(c.Int32ul),  # 20
-        "filter.type" / c.Optional(StdEnum[FilterType](c.Int32ul)),  # 24
+        "pan" / Maybe(c.Int32sl),  # 4
+        "volume" / Maybe(c.Int32ul),  # 8
+        "pitch_shift" / Maybe(c.Int32sl),  # 12
+        "filter.mod_x" / Maybe(c.Int32ul),  # 16
+        "filter.mod_y" / Maybe(c.Int32ul),  # 20
+        "filter.type" / Maybe(StdEnum[FilterType](c.Int32ul)),  # 24
     ).compile()
 
 
@@ -246,43 +246,43 @@ class StretchMode(ct.EnumBase):
 
 class ParametersEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Optional(c.Bytes(9)),  # 9
-        "fx.remove_dc" / c.Optional(c.Flag),  # 10
-        "delay.flags" / c.Optional(StdEnum[_DelayFlags](c.Int8ul)),  # 11
-        "keyboard.main_pitch" / c.Optional(c.Flag),  # 12
-        "_u2" / c.Optional(c.Bytes(28)),  # 40
-        "arp.direction" / c.Optional(StdEnum[ArpDirection](c.Int32ul)),  # 44
-        "arp.range" / c.Optional(c.Int32ul),  # 48
-        "arp.chord" / c.Optional(c.Int32ul),  # 52
-        "arp.time" / c.Optional(c.Float32l),  # 56
-        "arp.gate" / c.Optional(c.Float32l),  # 60
-        "arp.slide" / c.Optional(c.Flag),  # 61
-        "_u3" / c.Optional(c.Bytes(1)),  # 62
-        "time.full_porta" / c.Optional(c.Flag),  # 63
-        "keyboard.add_root" / c.Optional(c.Flag),  # 64
-        "time.gate" / c.Optional(c.Int16ul),  # 66
-        "_u4" / c.Optional(c.Bytes(2)),  # 68
-        "keyboard.key_region" / c.Optional(List2Tuple(c.Int32ul[2])),  # 76
-        "_u5" / c.Optional(c.Bytes(4)),  # 80
-        "fx.normalize" / c.Optional(c.Flag),  # 81
-        "fx.inverted" / c.Optional(c.Flag),  # 82
-        "_u6" / c.Optional(c.Bytes(1)),  # 83
-        "content.declick_mode" / c.Optional(StdEnum[DeclickMode](c.Int8ul)),  # 84
-        "fx.crossfade" / c.Optional(c.Int32ul),  # 88
-        "fx.trim" / c.Optional(c.Int32ul),  # 92
-        "arp.repeat" / c.Optional(c.Int32ul),  # 96; FL 4.5.2+
-        "stretching.time" / c.Optional(LinearMusical(c.Int32ul)),  # 100
-        "stretching.pitch" / c.Optional(c.Int32sl),  # 104
-        "stretching.multiplier" / c.Optional(Log2(c.Int32sl, 10000)),  # 108
-        "stretching.mode" / c.Optional(StdEnum[StretchMode](c.Int32sl)),  # 112
-        "_u7" / c.Optional(c.Bytes(21)),  # 133
-        "fx.start" / c.Optional(LogNormal(c.Int16ul[2], (0, 61440))),  # 137
-        "_u8" / c.Optional(c.Bytes(4)),  # 141
-        "fx.length" / c.Optional(LogNormal(c.Int16ul[2], (0, 61440))),  # 145
-        "_u9" / c.Optional(c.Bytes(3)),  # 148
-        "playback.start_offset" / c.Optional(c.Int32ul),  # 152
-        "_u10" / c.Optional(c.Bytes(5)),  # 157
-        "fx.fix_trim" / c.Optional(c.Flag),  # 158 (FL 20.8.4 max)
+        "_u1" / Maybe(c.Bytes(9)),  # 9
+        "fx.remove_dc" / Maybe(c.Flag),  # 10
+        "delay.flags" / Maybe(StdEnum[_DelayFlags](c.Int8ul)),  # 11
+        "keyboard.main_pitch" / Maybe(c.Flag),  # 12
+        "_u2" / Maybe(c.Bytes(28)),  # 40
+        "arp.direction" / Maybe(StdEnum[ArpDirection](c.Int32ul)),  # 44
+        "arp.range" / Maybe(c.Int32ul),  # 48
+        "arp.chord" / Maybe(c.Int32ul),  # 52
+        "arp.time" / Maybe(c.Float32l),  # 56
+        "arp.gate" / Maybe(c.Float32l),  # 60
+        "arp.slide" / Maybe(c.Flag),  # 61
+        "_u3" / Maybe(c.Bytes(1)),  # 62
+        "time.full_porta" / Maybe(c.Flag),  # 63
+        "keyboard.add_root" / Maybe(c.Flag),  # 64
+        "time.gate" / Maybe(c.Int16ul),  # 66
+        "_u4" / Maybe(c.Bytes(2)),  # 68
+        "keyboard.key_region" / Maybe(List2Tuple(c.Int32ul[2])),  # 76
+        "_u5" / Maybe(c.Bytes(4)),  # 80
+        "fx.normalize" / Maybe(c.Flag),  # 81
+        "fx.inverted" / Maybe(c.Flag),  # 82
+        "_u6" / Maybe(c.Bytes(1)),  # 83
+        "content.declick_mode" / Maybe(StdEnum[DeclickMode](c.Int8ul)),  # 84
+        "fx.crossfade" / Maybe(c.Int32ul),  # 88
+        "fx.trim" / Maybe(c.Int32ul),  # 92
+        "arp.repeat" / Maybe(c.Int32ul),  # 96; FL 4.5.2+
+        "stretching.time" / Maybe(LinearMusical(c.Int32ul)),  # 100
+        "stretching.pitch" / Maybe(c.Int32sl),  # 104
+        "stretching.multiplier" / Maybe(Log2(c.Int32sl, 10000)),  # 108
+        "stretching.mode" / Maybe(StdEnum[StretchMode](c.Int32sl)),  # 112
+        "_u7" / Maybe(c.Bytes(21)),  # 133
+        "fx.start" / Maybe(LogNormal(c.Int16ul[2], (0, 61440))),  # 137
+        "_u8" / Maybe(c.Bytes(4)),  # 141
+        "fx.length" / Maybe(LogNormal(c.Int16ul[2], (0, 61440))),  # 145
+        "_u9" / Maybe(c.Bytes(3)),  # 148
+        "playback.start_offset" / Maybe(c.Int32ul),  # 152
+        "_u10" / Maybe(c.Bytes(5)),  # 157
+        "fx.fix_trim" / Maybe(c.Flag),  # 158 (FL 20.8.4 max)
         "_extra" / c.GreedyBytes,  # * 168 as of 20.9.1
     )
 
@@ -296,18 +296,18 @@ class _PolyphonyFlags(enum.IntFlag):
 
 class PolyphonyEvent(StructEventBase):
     STRUCT = c.Struct(
-        "max" / c.Optional(c.Int32ul),  # 4
-        "slide" / c.Optional(c.Int32ul),  # 8
-        "flags" / c.Optional(StdEnum[_PolyphonyFlags](c.Byte)),  # 9
+        "max" / Maybe(c.Int32ul),  # 4
+        "slide" / Maybe(c.Int32ul),  # 8
+        "flags" / Maybe(StdEnum[_PolyphonyFlags](c.Byte)),  # 9
     ).compile()
 
 
 class TrackingEvent(StructEventBase):
     STRUCT = c.Struct(
-        "middle_value" / c.Optional(c.Int32ul),  # 4
-        "pan" / c.Optional(c.Int32sl),  # 8
-        "mod_x" / c.Optional(c.Int32sl),  # 12
-        "mod_y" / c.Optional(c.Int32sl),  # 16
+        "middle_value" / Maybe(c.Int32ul),  # 4
+        "pan" / Maybe(c.Int32sl),  # 8
+        "mod_x" / Maybe(c.Int32sl),  # 12
+        "mod_y" / Maybe(c.Int32sl),  # 16
     ).compile()
 
 
diff --git a/pyflp/controller.py b/pyflp/controller.py
index ec1cc67..f434235 100644
--- a/pyflp/controller.py
+++ b/pyflp/controller.py
@@ -20,6 +20,7 @@ from typing import cast
 
 import construct as c
 
+from pyflp._adapters import Maybe
 from pyflp._events import DATA, EventEnum, StructEventBase
 from pyflp._models import EventModel, ModelReprMixin
 
@@ -32,13 +33,13 @@ class MIDIControllerEvent(StructEventBase):
 
 class RemoteControllerEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Optional(c.Bytes(2)),  # 2
-        "_u2" / c.Optional(c.Byte),  # 3
-        "_u3" / c.Optional(c.Byte),  # 4
-        "parameter_data" / c.Optional(c.Int16ul),  # 6
-        "destination_data" / c.Optional(c.Int16sl),  # 8
-        "_u4" / c.Optional(c.Bytes(8)),  # 16
-        "_u5" / c.Optional(c.Bytes(4)),  # 20
+        "_u1" / Maybe(c.Bytes(2)),  # 2
+        "_u2" / Maybe(c.Byte),  # 3
+        "_u3" / Maybe(c.Byte),  # 4
+        "parameter_data" / Maybe(c.Int16ul),  # 6
+        "destination_data" / Maybe(c.Int16sl),  # 8
+        "_u4" / Maybe(c.Bytes(8)),  # 16
+        "_u5" / Maybe(c.Bytes(4)),  # 20
     ).compile()
 
 
diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index f126911..3c99de5 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -24,7 +24,7 @@ import construct as c
 import construct_typed as ct
 from typing_extensions import NotRequired, TypedDict, Unpack
 
-from pyflp._adapters import StdEnum
+from pyflp._adapters import Maybe, StdEnum
 from pyflp._descriptors import EventProp, FlagProp, NamedPropMixin, ROProperty, RWProperty
 from pyflp._events import (
     DATA,
@@ -104,9 +104,9 @@ class _MixerParamsID(ct.EnumBase):
 
 class InsertFlagsEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Optional(c.Bytes(4)),  # 4
-        "flags" / c.Optional(StdEnum[_InsertFlags](c.Int32ul)),  # 8
-        "_u2" / c.Optional(c.Bytes(4)),  # 12
+        "_u1" / Maybe(c.Bytes(4)),  # 4
+        "flags" / Maybe(StdEnum[_InsertFlags](c.Int32ul)),  # 8
+        "_u2" / Maybe(c.Bytes(4)),  # 12
     ).compile()
 
 
diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 4e699ac..4e3fbfb 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -22,7 +22,7 @@ from typing import Any, ClassVar, Dict, Generic, Literal, Protocol, TypeVar, cas
 import construct as c
 import construct_typed as ct
 
-from pyflp._adapters import FourByteBool, StdEnum
+from pyflp._adapters import FourByteBool, Maybe, StdEnum
 from pyflp._descriptors import FlagProp, NamedPropMixin, RWProperty, StructProp
 from pyflp._events import (
     DATA,
@@ -212,12 +212,12 @@ class WrapperPage(ct.EnumBase):
 
 class WrapperEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Optional(c.Bytes(16)),  # 16
-        "flags" / c.Optional(StdEnum[_WrapperFlags](c.Int32ul)),  # 20
-        "page" / c.Optional(StdEnum[WrapperPage](c.Int8ul)),  # 21
-        "_u3" / c.Optional(c.Bytes(23)),  # 44
-        "width" / c.Optional(c.Int32ul),  # 48
-        "height" / c.Optional(c.Int32ul),  # 52
+        "_u1" / Maybe(c.Bytes(16)),  # 16
+        "flags" / Maybe(StdEnum[_WrapperFlags](c.Int32ul)),  # 20
+        "page" / Maybe(StdEnum[WrapperPage](c.Int8ul)),  # 21
+        "_u3" / Maybe(c.Bytes(23)),  # 44
+        "width" / Maybe(c.Int32ul),  # 48
+        "height" / Maybe(c.Int32ul),  # 52
         "_extra" / c.GreedyBytes,  # None as of 20.9.2
     ).compile()
 
@@ -269,18 +269,18 @@ class _VSTFlags2(enum.IntFlag):
 
 class VSTPluginEvent(StructEventBase):
     _MIDIStruct = c.Struct(
-        "input" / c.Optional(c.Int32sl),  # 4
-        "output" / c.Optional(c.Int32sl),  # 8
-        "pb_range" / c.Optional(c.Int32ul),  # 12
+        "input" / Maybe(c.Int32sl),  # 4
+        "output" / Maybe(c.Int32sl),  # 8
+        "pb_range" / Maybe(c.Int32ul),  # 12
         "_extra" / c.GreedyBytes,  # upto 20
     ).compile()
 
     _FlagsStruct = c.Struct(
-        "_u1" / c.Optional(c.Bytes(9)),  # 9
-        "flags" / c.Optional(StdEnum[_VSTFlags](c.Int32ul)),  # 13
-        "flags2" / c.Optional(StdEnum[_VSTFlags2](c.Int32ul)),  # 17
-        "_u2" / c.Optional(c.Bytes(5)),  # 22
-        "fast_idle" / c.Optional(c.Flag),  # 23
+        "_u1" / Maybe(c.Bytes(9)),  # 9
+        "flags" / Maybe(StdEnum[_VSTFlags](c.Int32ul)),  # 13
+        "flags2" / Maybe(StdEnum[_VSTFlags2](c.Int32ul)),  # 17
+        "_u2" / Maybe(c.Bytes(5)),  # 22
+        "fast_idle" / Maybe(c.Flag),  # 23
         "_extra" / c.GreedyBytes,
     ).compile()
 
-- 
2.43.0


From 0ec6963764136aa5fa473068bda66398ccfeb643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:03 +0000
Subject: [PATCH 36/42] fix: pages of Fruity NoteBook 2 are a dict as
 documented

---
 pyflp/plugin.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 4e3fbfb..bd5af8f 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -452,6 +452,18 @@ class _NativePluginProp(StructProp[T]):
         super().__init__(PluginID.Data, prop=prop, **kwds)
 
 
+class _NotebookPagesProp(_NativePluginProp[Dict[int, str]]):
+    def _get(self, ev_or_ins: Any) -> dict[int, str]:
+        return {page["index"]: page["value"] for page in ev_or_ins["pages"] if "value" in page}
+
+    def _set(self, ev_or_ins: Any, value: dict[int, str]) -> None:
+        pages: list[dict[str, Any]] = []
+        for index, text in value.items():
+            length = len(text.encode("utf-16-le")) // 2
+            pages.append({"index": index, "length": length, "value": text})
+        ev_or_ins["pages"] = [*pages, {"index": -1}]
+
+
 class _VSTPluginProp(RWProperty[T], NamedPropMixin):
     def __init__(self, id: _VSTPluginEventID, prop: str | None = None) -> None:
         self._id = id
@@ -976,7 +988,7 @@ class FruityNotebook2(_PluginBase[FruityNotebook2Event], _IPlugin, ModelReprMixi
     This attribute is just a visual marker used by FL Studio.
     """
 
-    pages = _NativePluginProp[Dict[int, str]]()
+    pages = _NotebookPagesProp("pages")
     """A dict of page numbers to their contents."""
 
 
-- 
2.43.0


From df54f9600d6d2ffa03a3da4eb680ac47b2342cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:46 +0000
Subject: [PATCH 37/42] fix: playlist items refer to the channel or pattern
 which is stored

---
 pyflp/arrangement.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index ba984a6..79cd183 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -210,11 +210,11 @@ class ChannelPLItem(PLItemBase, ModelReprMixin):
 
     @property
     def channel(self) -> Channel:
-        return self._kw["channel"]
+        return self._kw["channels"][self["item_index"]]
 
     @channel.setter
     def channel(self, channel: Channel) -> None:
-        self._kw["channel"] = channel
+        self._kw["channels"][channel.iid] = channel
         self["item_index"] = channel.iid
 
 
@@ -226,11 +226,11 @@ class PatternPLItem(PLItemBase, ModelReprMixin):
 
     @property
     def pattern(self) -> Pattern:
-        return self._kw["pattern"]
+        return self._kw["patterns"][self["item_index"] - self["pattern_base"]]
 
     @pattern.setter
     def pattern(self, pattern: Pattern) -> None:
-        self._kw["pattern"] = pattern
+        self._kw["patterns"][pattern.iid] = pattern
         self["item_index"] = pattern.iid + self["pattern_base"]
 
 
@@ -394,11 +394,9 @@ class Arrangement(EventModel):
                     continue
 
                 if item["item_index"] <= item["pattern_base"]:
-                    iid = item["item_index"]
-                    items.append(ChannelPLItem(item, i, pl_evt, channel=channels[iid]))
+                    items.append(ChannelPLItem(item, i, pl_evt, channels=channels))
                 else:
-                    num = item["item_index"] - item["pattern_base"]
-                    items.append(PatternPLItem(item, i, pl_evt, pattern=patterns[num]))
+                    items.append(PatternPLItem(item, i, pl_evt, patterns=patterns))
             yield Track(ed, items=items)
 
 
-- 
2.43.0


From 2565c54a617fcf79c61117147f95b8b7c016c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:12 +0000
Subject: [PATCH 38/42] fix: size of an insert's EQ, which also made printing
 it fail

---
 pyflp/mixer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 3c99de5..ab86205 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -276,7 +276,7 @@ class InsertEQ(ModelBase, ModelReprMixin):
 
     @property
     def size(self) -> int:
-        return 12 * self._kw["param"]  # ! TODO
+        return self.low.size + self.mid.size + self.high.size
 
     low = _InsertEQProp(
         _InsertEQPropArgs(_MixerParamsID.LowFreq, _MixerParamsID.LowGain, _MixerParamsID.LowQ)
-- 
2.43.0


From 5e90fd53fc29ffe332fcf3727605cb97bd1e3d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:20 +0000
Subject: [PATCH 39/42] fix: printing VST plugins without a stored name or
 vendor

---
 pyflp/plugin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index bd5af8f..37fca55 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -539,7 +539,8 @@ class VSTPlugin(_PluginBase[VSTPluginEvent], _IPlugin):
     INTERNAL_NAME = "Fruity Wrapper"
 
     def __repr__(self) -> str:
-        return f"VSTPlugin(name={self.name!r}, vendor={self.vendor!r})"
+        name, vendor = getattr(self, "name", None), getattr(self, "vendor", None)
+        return f"VSTPlugin(name={name!r}, vendor={vendor!r})"
 
     class _AutomationOptions(EventModel):
         """See :attr:`VSTPlugin.automation`."""
-- 
2.43.0


From a7a8a68f943980a94aeaefa1c7f29bcc13e3795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:41 +0000
Subject: [PATCH 40/42] fix: dock of an insert whose flags are cut off

---
 pyflp/mixer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index ab86205..814dcbe 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -455,7 +455,9 @@ class Insert(EventModel, ModelCollection[Slot]):
         except KeyError:
             return None
 
-        flags = _InsertFlags(event["flags"])
+        flags = event["flags"]
+        if flags is None:
+            return None
         if _InsertFlags.DockMiddle in flags:
             return InsertDock.Middle
         if _InsertFlags.DockRight in flags:
-- 
2.43.0


From f851ee829e902c5f9001ed16f0fef4b4a288319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:50 +0000
Subject: [PATCH 41/42] fix: tempo of a project which stores only the fine
 tempo raised TypeError

---
 pyflp/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 38cce8e..460a3fd 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -459,7 +459,7 @@ class Project(EventModel):
         tempo = None
         if ProjectID._TempoCoarse in self.events.ids:
             tempo = self.events.first(ProjectID._TempoCoarse).value
-        if ProjectID._TempoFine in self.events.ids:
+        if tempo is not None and ProjectID._TempoFine in self.events.ids:
             tempo += self.events.first(ProjectID._TempoFine).value / 1000
         return tempo
 
-- 
2.43.0


From 1430bce887934771c7f035d778aa99f6c682e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:54 +0000
Subject: [PATCH 42/42] fix: a project whose timestamp event is cut off could
 not be loaded

---
 pyflp/project.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 460a3fd..3a5f7ee 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -24,6 +24,7 @@ import construct as c
 import construct_typed as ct
 from typing_extensions import TypedDict, Unpack
 
+from pyflp._adapters import Maybe
 from pyflp._descriptors import EventProp, KWProp
 from pyflp._events import (
     DATA,
@@ -62,7 +63,9 @@ VALID_PPQS: Final = (24, 48, 72, 96, 120, 144, 168, 192, 384, 768, 960)
 
 
 class TimestampEvent(StructEventBase):
-    STRUCT = c.Struct("created_on" / c.Float64l, "time_spent" / c.Float64l).compile()
+    STRUCT = c.Struct(
+        "created_on" / Maybe(c.Float64l), "time_spent" / Maybe(c.Float64l)
+    ).compile()
 
 
 @enum.unique
@@ -247,7 +250,8 @@ class Project(EventModel):
         """
         if ProjectID.Timestamp in self.events.ids:
             event = cast(TimestampEvent, self.events.first(ProjectID.Timestamp))
-            return _DELPHI_EPOCH + datetime.timedelta(days=event["created_on"])
+            if event["created_on"] is not None:
+                return _DELPHI_EPOCH + datetime.timedelta(days=event["created_on"])
 
     format = KWProp[FileFormat]()
     """Internal format marker used by FL Studio to distinguish between types."""
@@ -496,7 +500,8 @@ class Project(EventModel):
         """
         if ProjectID.Timestamp in self.events.ids:
             event = cast(TimestampEvent, self.events.first(ProjectID.Timestamp))
-            return datetime.timedelta(days=event["time_spent"])
+            if event["time_spent"] is not None:
+                return datetime.timedelta(days=event["time_spent"])
 
     url = EventProp[str](ProjectID.Url)
     """:menuselection:`Options --> &Project info --> Web link`."""
-- 
2.43.0

