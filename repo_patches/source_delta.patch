From dc0817062b4cd75177a69f88588eaf9205c652ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:27 +0000
Subject: [PATCH 01/19] fix: attribute finger run to the finger that typed it

When the finger changes, the finished run belongs to the previous finger,
not the one pressing the next button.
---
 lulua/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index 9d6c537..aeed7ea 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -90,7 +90,7 @@ class RunlenStats (Stats):
 
             fingerKey = (thisHand, thisFinger)
             if self.lastFinger and fingerKey != self.lastFinger:
-                self.fingerRunlenDist[fingerKey][self.fingerRunlen] += 1
+                self.fingerRunlenDist[self.lastFinger][self.fingerRunlen] += 1
                 self.fingerRunlen = 0
             self.fingerRunlen += 1
             self.lastFinger = fingerKey
-- 
2.43.0


From 4aba320c83ee7a5217a6c6a7e7f9f112c7e94473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:27 +0000
Subject: [PATCH 02/19] fix: merge finger run lengths when updating stats

RunlenStats.update dropped fingerRunlenDist, so combined statistics never
contained any finger run.
---
 lulua/stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lulua/stats.py b/lulua/stats.py
index aeed7ea..cca1b45 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -106,6 +106,7 @@ class RunlenStats (Stats):
 
     def update (self, other):
         updateDictOp (self.perHandRunlenDist, other.perHandRunlenDist, operator.add)
+        updateDictOp (self.fingerRunlenDist, other.fingerRunlenDist, operator.add)
 
 class SimpleStats (Stats):
     __slots__ = ('buttons', 'combinations', 'unknown')
-- 
2.43.0


From e686d30e67368ac45c9a44f150b3bdaf2cd45255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 03/19] fix: do not loop forever on truncated brotli streams

The decompressor never finishes if the stream ends early, so read() kept
feeding it empty strings.
---
 lulua/text.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index ea91139..f78091c 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -128,7 +128,11 @@ class BrotliFile:
         while not self.decompressor.is_finished ():
             if num is not None and len (self.buf) >= num:
                 break
-            self.buf += self.decompressor.process (self.fd.read (self.readchunk))
+            data = self.fd.read (self.readchunk)
+            out = self.decompressor.process (data)
+            if not data and not out:
+                raise EOFError ('truncated brotli stream')
+            self.buf += out
         if num is not None:
             b = self.buf[0:num]
             self.buf = self.buf[num:]
-- 
2.43.0


From 214eadd9f08c7136f6380dd7332b830e1977460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 04/19] fix: detect truncated tar archives

If the archive was cut off (or a read was short) the last member was
silently shortened.
---
 lulua/text.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index f78091c..0a68c01 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -147,6 +147,16 @@ class BrotliFile:
     def close (self):
         self.decompressor = None
 
+def readExactly (fd, num):
+    """ Read num bytes, even if fd returns less at once """
+    data = fd.read (num)
+    while len (data) < num:
+        more = fd.read (num-len (data))
+        if not more:
+            raise EOFError ('truncated archive')
+        data += more
+    return data
+
 def filterTar (fd):
     # Python’s tarfile module is painfully slow. We can do better.
     pos = 0
@@ -156,22 +166,25 @@ def filterTar (fd):
     while True:
         # read header
         header = fd.read (blocksize)
+        if header == b'':
+            break
+        header += readExactly (fd, blocksize-len (header))
         pos += blocksize
-        if header == b'' or header == emptyblock:
+        if header == emptyblock:
             break
         assert header[256:256+8] == b'\0ustar  ', (header[256:256+8])
         size = int (header[124:124+12].rstrip (b'\0'), base=8)
 
         # read body
         if size > 0:
-            yield BytesIO (fd.read (size))
+            yield BytesIO (readExactly (fd, size))
             pos += size
 
         # align to next 512 byte block
         into = pos%blocksize
         if into != 0:
             pad = blocksize-into
-            fd.read (pad)
+            readExactly (fd, pad)
             pos += pad
 
 def filterBrotli (fd):
-- 
2.43.0


From 102aa80eb340a470a1252583abd1c42904778676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 05/19] fix: do not treat unreadable files as invalid xml
 documents

I/O and decompression errors were caught as well and the document left out.
---
 lulua/text.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 0a68c01..fcf60a8 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -230,10 +230,14 @@ def filterFile (item):
         yield fd
 
 def filterXml (fd):
+    # failing to read the document does not make it invalid
+    data = fd.read ()
     try:
-        yield xml.dom.minidom.parse (fd)
+        doc = xml.dom.minidom.parseString (data)
     except Exception:
         logging.error (f'invalid xml document {fd}')
+    else:
+        yield doc
 
 def getText (nodelist):
     """ Helper to retrieve text from an XML node list """
-- 
2.43.0


From 1df29d6257f012a3484193f7d9cc9f55498bb938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 06/19] fix: keep consuming items after a worker failed

Otherwise the main process waits forever for the queue to drain.
---
 lulua/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lulua/text.py b/lulua/text.py
index fcf60a8..593f894 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -396,6 +396,9 @@ def writeWorker (layout, funcs, inq, outq, statusq, benchmark):
     except Exception as e:
         # async exceptions
         outq.put (e)
+        # the main process may be blocked on a full queue, keep consuming
+        while inq.get () is not None:
+            pass
 
 def statusWorker (statusq):
     with tqdm (unit='item', smoothing=0) as bar:
-- 
2.43.0


From 6c7a33bb43bb433f025ee1681183cf4d41233ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 07/19] fix: report worker exceptions that cannot be pickled

They were dropped by the queue and the main process waited forever for a
result.
---
 lulua/text.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 593f894..ec71c29 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -394,7 +394,12 @@ def writeWorker (layout, funcs, inq, outq, statusq, benchmark):
         else:
             outq.put (None)
     except Exception as e:
-        # async exceptions
+        # async exceptions. Not all of them survive pickling and the queue
+        # drops those that don’t.
+        try:
+            pickle.loads (pickle.dumps (e))
+        except Exception:
+            e = RuntimeError (f'{type (e).__name__}: {e}')
         outq.put (e)
         # the main process may be blocked on a full queue, keep consuming
         while inq.get () is not None:
-- 
2.43.0


From 616ac66c3e413a0398e1515f7c19de9277b29cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 08/19] fix: do not hang on exit if unprocessed items are
 queued
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

On exit the queue’s feeder thread is joined, which never succeeds if the pipe
is full and all workers are gone.
---
 lulua/text.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lulua/text.py b/lulua/text.py
index ec71c29..44e30c9 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -461,6 +461,11 @@ def write ():
             name=f'status')
     statusp.start()
 
+    # do not wait for items to be transferred, if nobody consumes them any more
+    # after an error
+    inq.cancel_join_thread ()
+    statusq.cancel_join_thread ()
+
     try:
         for l in sys.stdin:
             inq.put (l)
-- 
2.43.0


From d43a36da4e3ec3e351586ea14b70eb76199a326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 09/19] fix: do not block workers if progress cannot be
 displayed

If stderr is gone the status process died, its queue filled up and all
workers waited forever.
---
 lulua/text.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index 44e30c9..3f83239 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -406,15 +406,21 @@ def writeWorker (layout, funcs, inq, outq, statusq, benchmark):
             pass
 
 def statusWorker (statusq):
-    with tqdm (unit='item', smoothing=0) as bar:
-        while True:
-            try:
-                num = statusq.get (block=True, timeout=1)
-                if num is None:
-                    break
-                bar.update (n=num)
-            except queue.Empty:
-                bar.update (n=0)
+    num = 0
+    try:
+        with tqdm (unit='item', smoothing=0) as bar:
+            while True:
+                try:
+                    num = statusq.get (block=True, timeout=1)
+                    if num is None:
+                        break
+                    bar.update (n=num)
+                except queue.Empty:
+                    bar.update (n=0)
+    except OSError:
+        # nowhere to show progress, but workers must not be blocked
+        while num is not None:
+            num = statusq.get ()
 
 def write ():
     """ Extract corpus source file, convert to plain text, map chars and create stats """
-- 
2.43.0


From 2a2b1681f701637181cfc501fc1ecb9dafe53a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 10/19] fix: handle interrupts in the main process only

Pressing ctrl-c signals the entire process group, which killed the workers
and left the main process waiting for their results.
---
 lulua/text.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 3f83239..208db52 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -22,7 +22,7 @@
 Text/corpus handling tools
 """
 
-import sys, argparse, pickle, json, logging, xml.dom.minidom, queue
+import sys, argparse, pickle, json, logging, xml.dom.minidom, queue, signal
 from io import StringIO, BytesIO
 from functools import partial
 from itertools import chain
@@ -452,6 +452,9 @@ def write ():
     statusq = Queue (args.jobs+1)
 
     logging.info (f'using {args.jobs} workers')
+    # children inherit this. They must not be interrupted, since their results
+    # are still required.
+    sigint = signal.signal (signal.SIGINT, signal.SIG_IGN)
     workers = []
     for i in range (args.jobs):
         p = Process(target=writeWorker,
@@ -466,6 +469,7 @@ def write ():
             daemon=True,
             name=f'status')
     statusp.start()
+    signal.signal (signal.SIGINT, sigint)
 
     # do not wait for items to be transferred, if nobody consumes them any more
     # after an error
-- 
2.43.0


From 986e3c31b76116efae7324f283f0f6c6db130bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:33 +0000
Subject: [PATCH 11/19] fix: notice workers that died

If a worker or the status process is killed, no result will ever arrive and
the main process waited forever.
---
 lulua/text.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 208db52..06affc8 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -22,7 +22,7 @@
 Text/corpus handling tools
 """
 
-import sys, argparse, pickle, json, logging, xml.dom.minidom, queue, signal
+import sys, argparse, pickle, json, logging, xml.dom.minidom, queue, signal, atexit
 from io import StringIO, BytesIO
 from functools import partial
 from itertools import chain
@@ -476,6 +476,18 @@ def write ():
     inq.cancel_join_thread ()
     statusq.cancel_join_thread ()
 
+    # if any of them dies (out of memory, for instance) there’ll be no result to
+    # wait for
+    def checkChildren (signum=None, frame=None):
+        for p in chain (workers, [statusp]):
+            if p.exitcode not in (None, 0):
+                signal.signal (signal.SIGCHLD, signal.SIG_DFL)
+                raise RuntimeError (f'{p.name} died with exit code {p.exitcode}')
+    # on exit those that are still alive will be terminated
+    atexit.register (signal.signal, signal.SIGCHLD, signal.SIG_DFL)
+    signal.signal (signal.SIGCHLD, checkChildren)
+    checkChildren ()
+
     try:
         for l in sys.stdin:
             inq.put (l)
-- 
2.43.0


From 3cade34055baae0c15be70810177d38e9906fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:00 +0000
Subject: [PATCH 12/19] fix: fill lookahead buffer completely when typing

If a stream returned less than requested a shorter match was chosen.
---
 lulua/writer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lulua/writer.py b/lulua/writer.py
index a186315..ddce984 100644
--- a/lulua/writer.py
+++ b/lulua/writer.py
@@ -189,7 +189,13 @@ class Writer:
     def type (self, fd):
         buf = ''
         while True:
-            buf += fd.read (self.layout.bufferLen-len (buf))
+            # reads may be short, but without enough lookahead the longest
+            # match can’t be found
+            while len (buf) < self.layout.bufferLen:
+                data = fd.read (self.layout.bufferLen-len (buf))
+                if not data:
+                    break
+                buf += data
             if not buf:
                 break
 
-- 
2.43.0


From 22a1fd1b30667a293528704dac3446c07bf90efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:09 +0000
Subject: [PATCH 13/19] fix: fail if statistics end within a record

An EOFError was always treated as end of input, even if it was raised in the
middle of a truncated record, silently dropping it.
---
 lulua/stats.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index cca1b45..adf0107 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -231,12 +231,36 @@ class WordStats (Stats):
 
 allStats = [SimpleStats, RunlenStats, TriadStats, WordStats]
 
+class ReadTracker:
+    """ File-like object, which knows whether any data has been read from it """
+
+    __slots__ = ('fd', 'hasData')
+
+    def __init__ (self, fd):
+        self.fd = fd
+        self.hasData = False
+
+    def _track (self, data):
+        self.hasData = self.hasData or len (data) > 0
+        return data
+
+    def read (self, n=-1):
+        return self._track (self.fd.read (n))
+
+    def readline (self):
+        return self._track (self.fd.readline ())
+
 def unpickleAll (fd):
     while True:
+        tracker = ReadTracker (fd)
         try:
-            yield pickle.load (fd)
+            obj = pickle.load (tracker)
         except EOFError:
+            if tracker.hasData:
+                # file ends within an object
+                raise
             break
+        yield obj
 
 def makeCombined (keyboard):
     """ Create a dict which contains initialized stats, ready for combining (not actual writing!) """
-- 
2.43.0


From 31367a713a6d095c035b9cf361a17a00fe6ae99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:33 +0000
Subject: [PATCH 14/19] fix: pickle buttons by name

Button ids are assigned in the order buttons are created and thus only
meaningful within a process. Statistics were misinterpreted if the reading
process loaded a different keyboard (first).
---
 lulua/keyboard.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lulua/keyboard.py b/lulua/keyboard.py
index eed58a7..5e2d528 100644
--- a/lulua/keyboard.py
+++ b/lulua/keyboard.py
@@ -52,6 +52,10 @@ class Button:
         if self.scancode and 'windows' in self.scancode:
             self.scancode['windows'] = tuple (self.scancode['windows'])
 
+    def __reduce__ (self):
+        # ids are only valid within this process, so pickle the name instead
+        return self.__class__, (self.name, self.width, self.isMarked, self.scancode)
+
     def __repr__ (self): # pragma: no cover
         return f'Button({self.name!r}, {self.width}, {self.isMarked})'
 
@@ -115,6 +119,9 @@ class MultiRowButton (Button):
         super ().__init__ (name, width=width, isMarked=isMarked, scancode=scancode)
         self.span = span
 
+    def __reduce__ (self):
+        return self.__class__, (self.name, self.span, self.width, self.isMarked, self.scancode)
+
     def __repr__ (self): # pragma: no cover
         return f'MultiRowButton({self.name!r}, {self.span!r}, {self.isMarked!r})'
 
-- 
2.43.0


From a344fda0a8e8b3b5cd81237decf649827a1aa98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:23 +0000
Subject: [PATCH 15/19] fix: report failure if winkbd rendering is not
 supported

lulua-render returned success without writing anything.
---
 lulua/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/render.py b/lulua/render.py
index bc09e4c..503d477 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -473,7 +473,7 @@ def renderWinKbd (args):
 
     if args.layout != 'ar-lulua':
         logging.error (f'due to the delicate relationship between virtual keys and text output this command will probably not produce working files for your layout. Please have a look at renderWinKbd() in {__file__} and fix the code.')
-        return
+        return 1
 
     resPath = pkg_resources.resource_filename (__package__, 'data/winkbd')
 
-- 
2.43.0


From 044145ea9195709b102e528cd77fef5cf015a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:22 +0000
Subject: [PATCH 16/19] fix: report energy of the optimized layout

---
 lulua/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lulua/optimize.py b/lulua/optimize.py
index facba17..9b0ed4d 100644
--- a/lulua/optimize.py
+++ b/lulua/optimize.py
@@ -342,6 +342,8 @@ def optimize ():
             opt.mutate (withEnergy=False)
     try:
         state, relEnergy = opt.run (steps=args.steps)
+        # run() leaves the last state, which is not neccessarily the best one
+        opt.state = state
         energy = opt.energy ()
         optimalButtonMap = state.buttonMap
     except KeyboardInterrupt:
-- 
2.43.0


From bc223ad0bc51e7f6fedd45c0cc79c62b82a9c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:52 +0000
Subject: [PATCH 17/19] fix: do not treat long file names in tar archives as
 documents

---
 lulua/text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 06affc8..b55c35d 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -177,8 +177,11 @@ def filterTar (fd):
 
         # read body
         if size > 0:
-            yield BytesIO (readExactly (fd, size))
+            body = readExactly (fd, size)
             pos += size
+            # GNU tar stores long names as an additional member, ignore those
+            if header[156:157] not in (b'L', b'K'):
+                yield BytesIO (body)
 
         # align to next 512 byte block
         into = pos%blocksize
-- 
2.43.0


From f8bd3968bc0594fa03cac62ddd7b7a10f55f8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:31 +0000
Subject: [PATCH 18/19] fix: count unknown characters with layouts that cannot
 type anything

---
 lulua/layout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 5e021fe..09a296a 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -132,7 +132,8 @@ class KeyboardLayout:
         self.layers = layers
         self.keyboard = keyboard
         self._modifierToLayer : Dict[FrozenSet[Button], Tuple[int, Layer]] = dict ()
-        self.bufferLen = 0
+        # at least one character is required to recognize unknown ones
+        self.bufferLen = 1
         t = self.t = CharTrie ()
         for i, l in enumerate (layers):
             for m in l.modifier:
-- 
2.43.0


From bc0699492f02da5fce04052b6cbdc20e7455450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:06 +0000
Subject: [PATCH 19/19] fix: notice workers that died while being interrupted

---
 lulua/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index b55c35d..5fb76cf 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -499,7 +499,8 @@ def write ():
             if not outq.empty ():
                 break
     except KeyboardInterrupt:
-        pass
+        # the handler may not have been able to finish
+        checkChildren ()
 
     # exit workers
     # every one of them will consume exactly one item and write one in return
-- 
2.43.0

