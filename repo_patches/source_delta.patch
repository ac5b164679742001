From e4d0285fed8cb9db987b389942387e987fb9c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 1/6] fix: a sync with nothing to log never completed
 (superblock rewritten forever)

---
 Impl/CoordinationImpl.i.dfy | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Impl/CoordinationImpl.i.dfy b/Impl/CoordinationImpl.i.dfy
index 72fd6fe..d4f1d62 100644
--- a/Impl/CoordinationImpl.i.dfy
+++ b/Impl/CoordinationImpl.i.dfy
@@ -377,7 +377,13 @@ module CoordinationImpl {
         success := false;
         assert M.Next(old_s.I(), s.I(), UI.NoOp, diskOp(IIO(io)));
       } else {
-        wait := doSync(inout s, io, graphSync);
+        // A sync request that finds nothing to write to the journal is never
+        // moved past State3 by the journal path, which would then rewrite the
+        // superblock forever. Only a graph sync makes progress on it.
+        var hasFrozen := s.jc.journalist.hasFrozenJournal();
+        var hasInMem := s.jc.journalist.hasInMemoryJournal();
+        var nothingToLog := committerSyncState == Some(JC.State3) && !hasFrozen && !hasInMem;
+        wait := doSync(inout s, io, graphSync || nothingToLog);
         success := false;
       }
     }
-- 
2.43.0


From 54418730d6c0237ebee0170d950c017f5128ad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 2/6] fix: completeWriteTasks gave up when the writes in
 progress finished before those held back were started

---
 framework/Framework.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/framework/Framework.cpp b/framework/Framework.cpp
index 478e4e8..877dda1 100644
--- a/framework/Framework.cpp
+++ b/framework/Framework.cpp
@@ -405,14 +405,15 @@ namespace MainDiskIOHandler_Compile {
           any_not_started = true;
         }
       }
-      if (i == 0) {
-        if (any_not_started) {
-          fail("completeWriteTasks: any_not_started");
-        }
+      if (i == 0 && !any_not_started) {
         break;
       }
 
-      aio_suspend(&tasks[0], i, NULL);
+      // If every started write is already done, there is none to wait for:
+      // start those that were held back.
+      if (i > 0) {
+        aio_suspend(&tasks[0], i, NULL);
+      }
 
       maybeStartWriteReq();
     }
-- 
2.43.0


From 9db9c032f8dba35021dac2134bc3bc3038555e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 3/6] fix: a DiskIOHandler was destroyed while the OS still
 used its write buffers

---
 framework/Framework.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/framework/Framework.cpp b/framework/Framework.cpp
index 877dda1..2478e07 100644
--- a/framework/Framework.cpp
+++ b/framework/Framework.cpp
@@ -168,6 +168,24 @@ namespace MainDiskIOHandler_Compile {
         }
       }
     }
+
+    // Nobody will ask for this write's result any more. The OS uses the
+    // control block and the buffer until a started write is finished,
+    // so wait for that.
+    void abandon() {
+      if (!made_req) {
+        nWriteReqsWaiting--;
+      } else if (!done) {
+        aiocb* aiolist[1];
+        aiolist[0] = &aio_req_write;
+        while (aio_error(&aio_req_write) == EINPROGRESS) {
+          aio_suspend(aiolist, 1, NULL);
+        }
+        aio_return(&aio_req_write);
+        done = true;
+        nWriteReqsOut--;
+      }
+    }
   };
 
   struct ReadTask {
@@ -253,6 +271,9 @@ namespace MainDiskIOHandler_Compile {
   }
 
   DiskIOHandler::~DiskIOHandler() {
+    for (auto p : this->writeReqs) {
+      p.second->abandon();
+    }
     if (0 <= fd)
       close(fd);
   }
-- 
2.43.0


From 78db0694a5ea15fc774a3c9fde4de53c97a5089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 4/6] fix: Succ did not wait for its writes: it spun, and gave
 up on a slow disk

---
 framework/Framework.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework/Framework.cpp b/framework/Framework.cpp
index 2478e07..590428e 100644
--- a/framework/Framework.cpp
+++ b/framework/Framework.cpp
@@ -751,6 +751,9 @@ UI_Compile::SuccResultList Application::SuccOnce(UI_Compile::RangeStart start, u
 
   for (int i = 0; i < 500000; i++) {
     auto result = handle_Succ(hs, io, start, maxToFind);
+    if (io->has_write_task()) {
+      io->completeWriteTasks();
+    }
     this->maybeDoResponse();
     if (result.has_value()) {
       LOG("doing succ ... success!");
-- 
2.43.0


From 9aa300b25818c1715e5af4c82e70460c1667f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 5/6] fix: a damaged length must not make try_parse of a
 resizable sequence panic

---
 Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs b/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
index 87f6ff5..747cb13 100644
--- a/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
+++ b/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
@@ -528,6 +528,13 @@ impl<EltFormat: Marshal + UniformSized, LenType: IntFormattable>
         match self.try_length(dslice, data) {
             None => { None },
             Some(len) => {
+                if self.max_length < len {
+                    // The stored length describes more elements than the allocated space can
+                    // hold, so the last of them isn't gettable. Reject it before trusting len
+                    // with an allocation.
+                    assert( !self.gettable(dslice@.i(data@), len - 1) );
+                    return None;
+                }
                 let mut i: usize = 0;
                 let mut result:Vec<EltFormat::U> = Vec::with_capacity(len);
                 while i < len
-- 
2.43.0


From 247b9845cc86dfddab528136c8eba5b9aefbe8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:30 +0000
Subject: [PATCH 6/6] fix: recovery read the superblock and then dropped every
 recovered put

---
 Splinter/src/implementation/Implementation_v.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Splinter/src/implementation/Implementation_v.rs b/Splinter/src/implementation/Implementation_v.rs
index c81be97..d53e38a 100644
--- a/Splinter/src/implementation/Implementation_v.rs
+++ b/Splinter/src/implementation/Implementation_v.rs
@@ -867,7 +867,7 @@ impl Implementation {
 
             let superblock = unmarshall(&raw_page);
             // Record our learnings in the physical model.
-            // self.store = superblock.store;
+            self.journal = superblock.journal;
 
             assume(false);
 
-- 
2.43.0

