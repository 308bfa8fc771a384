From f33133c1fe1268dd0b9090aead624206b523ccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 01/82] fix: execute what precedes a command whose wait list
 failed, and fail its dependents

A command with a failed event in its wait list returned before the commands
ahead of it in the queue had been executed, so that clFinish left them behind.
A dependency that failed while it was being executed on behalf of a command did
not make that command fail. Flushing one queue also flushed the out-of-order
queues of the events it waits for, which may wait for unrelated user events.
Earlier commands are now executed one after another instead of recursively.
---
 src/core/Queue.cpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 1b603b6..bdf3efc 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -176,12 +176,14 @@ void Queue::execute(Command* command, bool flush)
   // Find command in queue
   auto it = std::find(m_queue.begin(), m_queue.end(), command);
 
-  // If there is a previous (older) command in the queue AND either the queue
-  // is not out of order OR needs to be flushed, then add event associated with
-  // previous (older) command as a dependency
-  if (it != m_queue.begin() && (!m_out_of_order || flush))
+  // Previous (older) commands in the queue that this command has to follow are
+  // executed first: all of them, unless the queue is out of order and does not
+  // need to be flushed
+  while (m_queue.front() != command && (!m_out_of_order || flush))
   {
-    command->waitList.push_back((*std::prev(it))->event);
+    Command* previous = m_queue.front();
+    execute(previous, flush);
+    command->execBefore.push_front(previous);
   }
 
   // Make sure all events in the wait list are complete before executing
@@ -191,26 +193,25 @@ void Queue::execute(Command* command, bool flush)
     Event* evt = command->waitList.front();
     command->waitList.pop_front();
 
+    if (evt->state > CL_COMPLETE && evt->command)
+    {
+      // If it's not a user event, execute the associated command
+      evt->queue->execute(evt->command, false);
+      command->execBefore.push_front(evt->command);
+    }
+
     if (evt->state < 0)
     {
+      // The command cannot be executed if an event it waits for has failed
       command->event->state = evt->state;
       m_queue.erase(it);
       return;
     }
     else if (evt->state != CL_COMPLETE)
     {
-      if (evt->command)
-      {
-        // If it's not a user event, execute the associated command
-        evt->queue->execute(evt->command, flush);
-        command->execBefore.push_front(evt->command);
-      }
-      else
-      {
-        // If it's a user event then place it back at the of the wait list, and
-        // check it later
-        command->waitList.push_back(evt);
-      }
+      // If it's a user event then place it back at the of the wait list, and
+      // check it later
+      command->waitList.push_back(evt);
     }
   }
 
-- 
2.43.0


From 671abfb095ec6ebb41730022c35e4f56dcce3f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 02/82] fix: make barriers and markers order the commands of
 out-of-order queues

Barriers and markers were empty commands that waited only for their event wait
list, so an out-of-order queue ran commands after a barrier before it, and a
marker without a wait list did not wait for the commands before it.
---
 src/core/Queue.cpp      | 15 ++++++++++++++-
 src/core/Queue.h        |  4 ++++
 src/runtime/runtime.cpp |  4 ++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index bdf3efc..a76003e 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -179,13 +179,26 @@ void Queue::execute(Command* command, bool flush)
   // Previous (older) commands in the queue that this command has to follow are
   // executed first: all of them, unless the queue is out of order and does not
   // need to be flushed
-  while (m_queue.front() != command && (!m_out_of_order || flush))
+  bool all = !m_out_of_order || flush || command->waitsForPrevious;
+  while (all && m_queue.front() != command)
   {
     Command* previous = m_queue.front();
     execute(previous, flush);
     command->execBefore.push_front(previous);
   }
 
+  // Barriers have to be executed first in any case
+  for (auto prev = m_queue.begin(); *prev != command;)
+  {
+    Command* previous = *prev++;
+    if (previous->blocksLater)
+    {
+      execute(previous, false);
+      command->execBefore.push_front(previous);
+      prev = m_queue.begin();
+    }
+  }
+
   // Make sure all events in the wait list are complete before executing
   // current command
   while (!command->waitList.empty())
diff --git a/src/core/Queue.h b/src/core/Queue.h
index 16eedb7..dd89e56 100644
--- a/src/core/Queue.h
+++ b/src/core/Queue.h
@@ -47,9 +47,13 @@ struct Command
   CommandType type;
   std::list<Event*> waitList;
   std::list<Command*> execBefore;
+  bool waitsForPrevious; // Follows all previous commands in its queue
+  bool blocksLater;      // Precedes all later commands in its queue
   Command()
   {
     type = EMPTY;
+    waitsForPrevious = false;
+    blocksLater = false;
   }
   virtual ~Command() {}
 
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index a645e71..fec44f7 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5297,6 +5297,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueMarkerWithWaitList(
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  cmd->waitsForPrevious = (num_events_in_wait_list == 0);
   asyncEnqueue(command_queue, CL_COMMAND_MARKER, cmd, num_events_in_wait_list,
                event_wait_list, event);
 
@@ -5323,6 +5324,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueBarrierWithWaitList(
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  cmd->waitsForPrevious = (num_events_in_wait_list == 0);
+  cmd->blocksLater = true;
   asyncEnqueue(command_queue, CL_COMMAND_BARRIER, cmd, num_events_in_wait_list,
                event_wait_list, event);
 
@@ -5360,6 +5363,7 @@ clEnqueueWaitForEvents(cl_command_queue command_queue, cl_uint num_events,
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  cmd->blocksLater = true;
   asyncEnqueue(command_queue, CL_COMMAND_BARRIER, cmd, num_events, event_list,
                NULL);
 
-- 
2.43.0


From 9e1394d0da467adca76d21246577a1191b70f341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 03/82] fix: call event callbacks registered after the event
 has ended

---
 src/runtime/runtime.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index fec44f7..ccc1f4c 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3667,7 +3667,15 @@ clSetEventCallback(cl_event event, cl_int command_exec_callback_type,
                    command_exec_callback_type);
   }
 
-  event->callbacks.push_back(make_pair(pfn_notify, user_data));
+  if (isComplete(event))
+  {
+    // Event has already ended, so nothing else will trigger the callback
+    pfn_notify(event, event->event->state, user_data);
+  }
+  else
+  {
+    event->callbacks.push_back(make_pair(pfn_notify, user_data));
+  }
 
   return CL_SUCCESS;
 }
-- 
2.43.0


From 93b2bd0bbd8d918cc3563a2191e167695d6dc753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 04/82] fix: report CL_COMMAND_TASK for the events of
 clEnqueueTask

---
 src/runtime/runtime.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index ccc1f4c..8284c08 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5192,9 +5192,14 @@ clEnqueueTask(cl_command_queue command_queue, cl_kernel kernel,
   REGISTER_API;
 
   size_t work = 1;
-  return clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &work, &work,
-                                num_events_in_wait_list, event_wait_list,
-                                event);
+  cl_int err = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &work,
+                                      &work, num_events_in_wait_list,
+                                      event_wait_list, event);
+  if (err == CL_SUCCESS && event)
+  {
+    (*event)->type = CL_COMMAND_TASK;
+  }
+  return err;
 }
 
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueNativeKernel(
-- 
2.43.0


From 5f556d2b71f3e660217696f9f0afe551379c0baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 05/82] fix: call the destructor callbacks of images over
 buffers, and before the context can go

An image created over a buffer copied the buffer's destructor callbacks and
never called any. Callbacks of other memory objects were called after the
object's reference to its context had been given up.
---
 src/runtime/runtime.cpp | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 8284c08..c1e09f2 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1754,6 +1754,8 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   // Create image object wrapper
   cl_image* image = new cl_image;
   *(cl_mem)image = *mem;
+  image->callbacks = {};
+  image->properties.clear();
   image->isImage = true;
   image->format = *image_format;
   image->desc = *image_desc;
@@ -1875,31 +1877,28 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseMemObject(cl_mem memobj)
 
   if (--memobj->refCount == 0)
   {
+    while (!memobj->callbacks.empty())
+    {
+      pair<void(CL_CALLBACK*)(cl_mem, void*), void*> callback =
+        memobj->callbacks.top();
+      callback.first(memobj, callback.second);
+      memobj->callbacks.pop();
+    }
+
     if (memobj->isImage &&
         ((cl_image*)memobj)->desc.image_type == CL_MEM_OBJECT_IMAGE1D_BUFFER)
     {
       clReleaseMemObject(((cl_image*)memobj)->desc.buffer);
     }
+    else if (memobj->parent)
+    {
+      clReleaseMemObject(memobj->parent);
+    }
     else
     {
-      if (memobj->parent)
-      {
-        clReleaseMemObject(memobj->parent);
-      }
-      else
-      {
-        memobj->context->context->getGlobalMemory()->deallocateBuffer(
-          memobj->address);
-        clReleaseContext(memobj->context);
-      }
-
-      while (!memobj->callbacks.empty())
-      {
-        pair<void(CL_CALLBACK*)(cl_mem, void*), void*> callback =
-          memobj->callbacks.top();
-        callback.first(memobj, callback.second);
-        memobj->callbacks.pop();
-      }
+      memobj->context->context->getGlobalMemory()->deallocateBuffer(
+        memobj->address);
+      clReleaseContext(memobj->context);
     }
 
     delete memobj;
-- 
2.43.0


From 4355bc2558a48fc4df709059f112f2212883413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 06/82] fix: samplers and events keep their context alive

They outlived the context they refer to and report errors through. The
reference count of samplers made from properties was not initialised, and
context properties were freed before the context's destructor callbacks ran.
---
 src/runtime/async_queue.cpp |  1 +
 src/runtime/runtime.cpp     | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index ada38bf..a1641f4 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -48,6 +48,7 @@ void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
   _event->type = type;
   _event->event = event;
   _event->refCount = 1;
+  clRetainContext(queue->context);
 
   // Add event to map
   eventMap[cmd] = _event;
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index c1e09f2..f21f8d1 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1132,11 +1132,6 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseContext(cl_context context)
 
   if (--context->refCount == 0)
   {
-    if (context->properties)
-    {
-      free(context->properties);
-    }
-
     while (!context->callbacks.empty())
     {
       pair<void(CL_CALLBACK*)(cl_context, void*), void*> callback =
@@ -1145,6 +1140,11 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseContext(cl_context context)
       context->callbacks.pop();
     }
 
+    if (context->properties)
+    {
+      free(context->properties);
+    }
+
     delete context->context;
     delete context;
   }
@@ -2293,6 +2293,7 @@ clCreateSampler(cl_context context, cl_bool normalized_coords,
   sampler->filterMode = filter_mode;
   sampler->sampler = bitfield;
   sampler->refCount = 1;
+  clRetainContext(context);
 
   SetError(context, CL_SUCCESS);
   return sampler;
@@ -2325,6 +2326,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseSampler(cl_sampler sampler)
 
   if (--sampler->refCount == 0)
   {
+    clReleaseContext(sampler->context);
     delete sampler;
   }
 
@@ -3564,6 +3566,7 @@ CL_API_ENTRY cl_event CL_API_CALL clCreateUserEvent(
   event->event->command = NULL;
   event->event->queue = NULL;
   event->refCount = 1;
+  clRetainContext(context);
 
   SetError(context, CL_SUCCESS);
   return event;
@@ -3600,6 +3603,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseEvent(cl_event event)
     {
       delete event->event;
     }
+    clReleaseContext(event->context);
     delete event;
   }
 
@@ -5927,6 +5931,8 @@ CL_API_ENTRY cl_sampler CL_API_CALL clCreateSamplerWithProperties(
   sampler->addressMode = addressing_mode;
   sampler->filterMode = filter_mode;
   sampler->sampler = bitfield;
+  sampler->refCount = 1;
+  clRetainContext(context);
   if (sampler_properties)
   {
     sampler->properties.assign(sampler_properties,
-- 
2.43.0


From 841852b7be876970d0b3224dffd03a10b248724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 07/82] fix: reject invalid values of private, sampler and
 local kernel arguments

---
 src/runtime/runtime.cpp | 44 +++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f21f8d1..fe400c7 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3109,11 +3109,7 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
                                    << " bytes");
   }
 
-  // Prepare argument value
-  oclgrind::TypedValue value;
-  value.data = new unsigned char[arg_size];
-  value.size = arg_size;
-  value.num = 1;
+  // Check that the value is valid for the kind of argument
   switch (addr)
   {
   case CL_KERNEL_ARG_ADDRESS_PRIVATE:
@@ -3122,12 +3118,48 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
       if (!arg_value)
       {
         ReturnError(kernel->program->context, CL_INVALID_SAMPLER);
-        return CL_INVALID_SAMPLER;
       }
       if (arg_size != sizeof(cl_sampler))
       {
         ReturnError(kernel->program->context, CL_INVALID_ARG_SIZE);
       }
+      if (!*(cl_sampler*)arg_value)
+      {
+        ReturnError(kernel->program->context, CL_INVALID_SAMPLER);
+      }
+    }
+    else if (!arg_value)
+    {
+      ReturnErrorInfo(kernel->program->context, CL_INVALID_ARG_VALUE,
+                      "arg_value is NULL");
+    }
+    break;
+  case CL_KERNEL_ARG_ADDRESS_LOCAL:
+    if (arg_size == 0)
+    {
+      ReturnErrorInfo(kernel->program->context, CL_INVALID_ARG_SIZE,
+                      "arg_size is 0 for a local memory argument");
+    }
+    if (arg_value)
+    {
+      ReturnErrorInfo(kernel->program->context, CL_INVALID_ARG_VALUE,
+                      "arg_value is not NULL for a local memory argument");
+    }
+    break;
+  default:
+    break;
+  }
+
+  // Prepare argument value
+  oclgrind::TypedValue value;
+  value.data = new unsigned char[arg_size];
+  value.size = arg_size;
+  value.num = 1;
+  switch (addr)
+  {
+  case CL_KERNEL_ARG_ADDRESS_PRIVATE:
+    if (isSampler)
+    {
       memcpy(value.data, &(*(cl_sampler*)arg_value)->sampler, 4);
     }
     else
-- 
2.43.0


From 11af2b2c6044c7ad37e1855689bd2177d542686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 08/82] fix: keep the image arguments of a cloned kernel valid
 after the source kernel is released

---
 src/runtime/icd.h       |  3 ++-
 src/runtime/runtime.cpp | 19 +++----------------
 2 files changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index b295360..e64b810 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -117,6 +117,7 @@
 #include <cstdint>
 #include <list>
 #include <map>
+#include <memory>
 #include <stack>
 #include <vector>
 
@@ -222,7 +223,7 @@ struct _cl_kernel
   oclgrind::Kernel* kernel;
   cl_program program;
   std::map<cl_uint, cl_mem> memArgs;
-  std::vector<oclgrind::Image*> imageArgs;
+  std::vector<std::shared_ptr<oclgrind::Image>> imageArgs;
   unsigned int refCount;
 };
 
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index fe400c7..fd12286 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3060,13 +3060,6 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseKernel(cl_kernel kernel)
 
   if (--kernel->refCount == 0)
   {
-
-    // Release memory allocated for image arguments
-    for (auto* img : kernel->imageArgs)
-    {
-      delete img;
-    }
-
     delete kernel->kernel;
 
     clReleaseProgram(kernel->program);
@@ -3186,7 +3179,7 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
         image->desc = ((cl_image*)mem)->desc;
         *(oclgrind::Image**)value.data = image;
         // Keep a record of the image struct for releasing it later
-        kernel->imageArgs.push_back(image);
+        kernel->imageArgs.emplace_back(image);
       }
       else
       {
@@ -6012,14 +6005,8 @@ CL_API_ENTRY cl_kernel CL_API_CALL clCloneKernel(
   kernel->kernel = new oclgrind::Kernel(*source_kernel->kernel);
   kernel->program = source_kernel->program;
   kernel->memArgs = source_kernel->memArgs;
-  for (auto src_img : source_kernel->imageArgs)
-  {
-    oclgrind::Image* image = new oclgrind::Image;
-    image->address = src_img->address;
-    image->format = src_img->format;
-    image->desc = src_img->desc;
-    kernel->imageArgs.push_back(image);
-  }
+  // The copied argument values refer to the same (immutable) image structs
+  kernel->imageArgs = source_kernel->imageArgs;
   kernel->refCount = 1;
 
   clRetainProgram(kernel->program);
-- 
2.43.0


From b5f5d921919e7cbfc6748758d2677cb0092dffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 09/82] fix: reject NULL kernels and empty work-groups when
 enqueueing a kernel

---
 src/runtime/runtime.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index fd12286..d872e18 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5086,6 +5086,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
+  if (!kernel)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_KERNEL, kernel);
+  }
   if (work_dim < 1 || work_dim > 3)
   {
     ReturnErrorInfo(
@@ -5112,6 +5116,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   kernel->kernel->getRequiredWorkGroupSize(reqdWorkGroupSize);
   for (unsigned i = 0; i < work_dim; i++)
   {
+    if (local_work_size && local_work_size[i] == 0)
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_WORK_GROUP_SIZE,
+                      "local_work_size[" << i << "] is 0");
+    }
     if (kernel->kernel->requiresUniformWorkGroups() && local_work_size &&
         global_work_size[i] % local_work_size[i])
     {
-- 
2.43.0


From a003b82e08a64cad512bf89835089f6de4fc34e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 10/82] fix: reject buffer ranges whose end wraps around

---
 src/runtime/runtime.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index d872e18..fb8e000 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1387,6 +1387,14 @@ CL_API_ENTRY cl_int CL_API_CALL clGetCommandQueueInfo(
 
 namespace
 {
+
+// Utility function for checking whether size bytes starting at offset lie
+// within an object of the given size (the sum could wrap around)
+bool isRangeValid(size_t offset, size_t size, size_t objectSize)
+{
+  return offset <= objectSize && size <= objectSize - offset;
+}
+
 cl_mem createBuffer(cl_context context, cl_mem_flags flags, size_t size,
                     void* host_ptr, cl_int* errcode_ret)
 {
@@ -1518,7 +1526,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   }
 
   _cl_buffer_region region = *(_cl_buffer_region*)buffer_create_info;
-  if (region.origin + region.size > buffer->size)
+  if (!isRangeValid(region.origin, region.size, buffer->size))
   {
     SetErrorInfo(buffer->context, CL_INVALID_VALUE,
                  "Region doesn't fit inside parent buffer");
@@ -3821,7 +3829,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
-  if (offset + cb > buffer->size)
+  if (!isRangeValid(offset, cb, buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -3970,7 +3978,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
-  if (offset + cb > buffer->size)
+  if (!isRangeValid(offset, cb, buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -4120,14 +4128,14 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
   }
-  if (dst_offset + cb > dst_buffer->size)
+  if (!isRangeValid(dst_offset, cb, dst_buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "dst_offset + cb (" << dst_offset << " + " << cb
                                         << ") exceeds buffer size ("
                                         << dst_buffer->size << " bytes)");
   }
-  if (src_offset + cb > src_buffer->size)
+  if (!isRangeValid(src_offset, cb, src_buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "src_offset + cb (" << src_offset << " + " << cb
@@ -4289,7 +4297,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, buffer);
   }
-  if (offset + cb > buffer->size)
+  if (!isRangeValid(offset, cb, buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -4837,7 +4845,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
   }
 
   // Check map region
-  if (offset + cb > buffer->size)
+  if (!isRangeValid(offset, cb, buffer->size))
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "offset + cb (" << offset << " + " << cb
-- 
2.43.0


From 282004d88f666e9d6498281133705ab30829f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 11/82] fix: sub-buffers report their host pointer and empty
 regions as documented

---
 src/runtime/runtime.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index fb8e000..e14b46c 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1534,7 +1534,8 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   }
   if (region.size == 0)
   {
-    SetErrorInfo(buffer->context, CL_INVALID_VALUE, "Region size cannot be 0");
+    SetErrorInfo(buffer->context, CL_INVALID_BUFFER_SIZE,
+                 "Region size cannot be 0");
     return NULL;
   }
 
@@ -1573,7 +1574,8 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   mem->offset = region.origin;
   mem->isImage = false;
   mem->flags = memFlags;
-  mem->hostPtr = (unsigned char*)buffer->hostPtr + region.origin;
+  mem->hostPtr =
+    buffer->hostPtr ? (unsigned char*)buffer->hostPtr + region.origin : NULL;
   mem->refCount = 1;
   mem->address = buffer->address + region.origin;
   clRetainMemObject(buffer);
-- 
2.43.0


From 24079b10dac151ac1193e62478787d19d0788c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 12/82] fix: reject empty, overflowing and overlapping
 rectangular buffer regions, and copies overlapping through sub-buffers

---
 src/runtime/runtime.cpp | 252 ++++++++++++++++++++++------------------
 1 file changed, 137 insertions(+), 115 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index e14b46c..ac4e3c5 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -8,6 +8,7 @@
 
 #include "config.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <cstring>
@@ -3811,6 +3812,99 @@ CL_API_ENTRY cl_int CL_API_CALL clFinish(cl_command_queue command_queue)
   return CL_SUCCESS;
 }
 
+namespace
+{
+
+// Utility function for preparing one side of a rectangular transfer: replaces
+// pitches that are zero, and computes the byte offset of the first element.
+// Returns false if the pitches don't fit the region, or any byte of it would
+// lie outside of an object of the given size.
+bool prepareRect(const size_t* origin, const size_t* region, size_t& row_pitch,
+                 size_t& slice_pitch, size_t objectSize, size_t& offset)
+{
+  if (!origin || !region || !region[0] || !region[1] || !region[2])
+  {
+    return false;
+  }
+  if (row_pitch == 0)
+  {
+    row_pitch = region[0];
+  }
+  if (row_pitch < region[0])
+  {
+    return false;
+  }
+  if (slice_pitch == 0)
+  {
+    slice_pitch = region[1] * row_pitch;
+  }
+  if (slice_pitch / region[1] < row_pitch)
+  {
+    return false;
+  }
+
+  // Take what each dimension needs from the size, so that nothing can overflow
+  const size_t pitches[3] = {1, row_pitch, slice_pitch};
+  const size_t last[3] = {region[0], region[1] - 1, region[2] - 1};
+  size_t left = objectSize;
+  offset = 0;
+  for (unsigned i = 0; i < 3; i++)
+  {
+    for (size_t count : {origin[i], last[i]})
+    {
+      if (count > left / pitches[i])
+      {
+        return false;
+      }
+      left -= count * pitches[i];
+    }
+    offset += origin[i] * pitches[i];
+  }
+  return true;
+}
+
+// Utility function for checking whether any row of one rectangular region
+// shares bytes with any row of another
+bool doRectsOverlap(size_t src, size_t src_row_pitch, size_t src_slice_pitch,
+                    size_t dst, size_t dst_row_pitch, size_t dst_slice_pitch,
+                    const size_t* region)
+{
+  size_t src_end = src + region[0] + (region[1] - 1) * src_row_pitch +
+                   (region[2] - 1) * src_slice_pitch;
+  size_t dst_end = dst + region[0] + (region[1] - 1) * dst_row_pitch +
+                   (region[2] - 1) * dst_slice_pitch;
+  if (src_end <= dst || dst_end <= src)
+  {
+    return false;
+  }
+
+  for (size_t src_z = 0; src_z < region[2]; src_z++)
+  {
+    for (size_t src_y = 0; src_y < region[1]; src_y++)
+    {
+      size_t row = src + src_y * src_row_pitch + src_z * src_slice_pitch;
+      for (size_t dst_z = 0; dst_z < region[2]; dst_z++)
+      {
+        // Only the destination rows around this one can overlap with it
+        size_t slice = dst + dst_z * dst_slice_pitch;
+        size_t first = row < slice ? 0 : (row - slice) / dst_row_pitch;
+        for (size_t dst_y : {std::min(first, region[1] - 1),
+                             std::min(first + 1, region[1] - 1)})
+        {
+          size_t other = slice + dst_y * dst_row_pitch;
+          if (row < other + region[0] && other < row + region[0])
+          {
+            return true;
+          }
+        }
+      }
+    }
+  }
+  return false;
+}
+
+} // namespace
+
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
   cl_command_queue command_queue, cl_mem buffer, cl_bool blocking_read,
   size_t offset, size_t cb, void* ptr, cl_uint num_events_in_wait_list,
@@ -3902,38 +3996,20 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
     return err;
   }
 
-  // Compute pitches if neccessary
-  if (buffer_row_pitch == 0)
-  {
-    buffer_row_pitch = region[0];
-  }
-  if (buffer_slice_pitch == 0)
+  // Compute pitches and offsets, and ensure that regions are valid
+  size_t buffer_offset, host_offset;
+  if (!prepareRect(buffer_origin, region, buffer_row_pitch, buffer_slice_pitch,
+                   buffer->size, buffer_offset))
   {
-    buffer_slice_pitch = region[1] * buffer_row_pitch;
-  }
-  if (host_row_pitch == 0)
-  {
-    host_row_pitch = region[0];
-  }
-  if (host_slice_pitch == 0)
-  {
-    host_slice_pitch = region[1] * host_row_pitch;
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region invalid for buffer size (" << buffer->size
+                                                       << " bytes)");
   }
-
-  // Compute origin offsets
-  size_t buffer_offset = buffer_origin[2] * buffer_slice_pitch +
-                         buffer_origin[1] * buffer_row_pitch + buffer_origin[0];
-  size_t host_offset = host_origin[2] * host_slice_pitch +
-                       host_origin[1] * host_row_pitch + host_origin[0];
-
-  // Ensure buffer region valid
-  size_t end = buffer_offset + region[0] + (region[1] - 1) * buffer_row_pitch +
-               (region[2] - 1) * buffer_slice_pitch;
-  if (end > buffer->size)
+  if (!prepareRect(host_origin, region, host_row_pitch, host_slice_pitch,
+                   SIZE_MAX, host_offset))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "Region exceeds buffer size (" << buffer->size
-                                                   << " bytes)");
+                    "Region invalid for host memory");
   }
 
   // Enqueue command
@@ -4051,38 +4127,20 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
     return err;
   }
 
-  // Compute pitches if necessary
-  if (buffer_row_pitch == 0)
-  {
-    buffer_row_pitch = region[0];
-  }
-  if (buffer_slice_pitch == 0)
+  // Compute pitches and offsets, and ensure that regions are valid
+  size_t buffer_offset, host_offset;
+  if (!prepareRect(buffer_origin, region, buffer_row_pitch, buffer_slice_pitch,
+                   buffer->size, buffer_offset))
   {
-    buffer_slice_pitch = region[1] * buffer_row_pitch;
-  }
-  if (host_row_pitch == 0)
-  {
-    host_row_pitch = region[0];
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region invalid for buffer size (" << buffer->size
+                                                       << " bytes)");
   }
-  if (host_slice_pitch == 0)
-  {
-    host_slice_pitch = region[1] * host_row_pitch;
-  }
-
-  // Compute origin offsets
-  size_t buffer_offset = buffer_origin[2] * buffer_slice_pitch +
-                         buffer_origin[1] * buffer_row_pitch + buffer_origin[0];
-  size_t host_offset = host_origin[2] * host_slice_pitch +
-                       host_origin[1] * host_row_pitch + host_origin[0];
-
-  // Ensure buffer region valid
-  size_t end = buffer_offset + region[0] + (region[1] - 1) * buffer_row_pitch +
-               (region[2] - 1) * buffer_slice_pitch;
-  if (end > buffer->size)
+  if (!prepareRect(host_origin, region, host_row_pitch, host_slice_pitch,
+                   SIZE_MAX, host_offset))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "Region exceeds buffer size (" << buffer->size
-                                                   << " bytes)");
+                    "Region invalid for host memory");
   }
 
   // Enqueue command
@@ -4144,29 +4202,15 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBuffer(
                                         << ") exceeds buffer size ("
                                         << src_buffer->size << " bytes)");
   }
-  // If src and dst buffers are the same and if src_offset comes before
-  // dst_offset and src buffer size goes beyond dst_offset then there is an
-  // overlap
-  if ((src_buffer == dst_buffer) && (src_offset <= dst_offset) &&
-      ((src_offset + cb) > dst_offset))
-  {
-    ReturnErrorInfo(command_queue->context, CL_MEM_COPY_OVERLAP,
-                    "src_buffer == dst_buffer and "
-                    "src_offset + cb ("
-                      << src_offset << " + " << cb << ") overlaps dst_offset ("
-                      << dst_offset << ")");
-  }
-  // If src and dst buffers are the same and if dst_offset comes before
-  // src_offset and dst buffer size goes beyond src_offset then there is an
-  // overlap
-  if ((src_buffer == dst_buffer) && (dst_offset <= src_offset) &&
-      ((dst_offset + cb) > src_offset))
+  // Check whether the ranges overlap (possibly through different sub-buffers)
+  size_t src_address = src_buffer->address + src_offset;
+  size_t dst_address = dst_buffer->address + dst_offset;
+  if (src_address < dst_address + cb && dst_address < src_address + cb)
   {
     ReturnErrorInfo(command_queue->context, CL_MEM_COPY_OVERLAP,
-                    "src_buffer == dst_buffer and "
-                    "dst_offset + cb ("
-                      << dst_offset << " + " << cb << ") overlaps src_offset ("
-                      << src_offset << ")");
+                    "source range (" << src_offset << " + " << cb
+                                     << ") overlaps destination range ("
+                                     << dst_offset << " + " << cb << ")");
   }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
@@ -4210,10 +4254,6 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
   }
-  if (!region || region[0] == 0 || region[1] == 0 || region[2] == 0)
-  {
-    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, region);
-  }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
       err != CL_SUCCESS)
@@ -4221,47 +4261,29 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
     return err;
   }
 
-  // Compute pitches if necessary
-  if (src_row_pitch == 0)
-  {
-    src_row_pitch = region[0];
-  }
-  if (src_slice_pitch == 0)
-  {
-    src_slice_pitch = region[1] * src_row_pitch;
-  }
-  if (dst_row_pitch == 0)
-  {
-    dst_row_pitch = region[0];
-  }
-  if (dst_slice_pitch == 0)
-  {
-    dst_slice_pitch = region[1] * dst_row_pitch;
-  }
-
-  // Compute origin offsets
-  size_t src_offset = src_origin[2] * src_slice_pitch +
-                      src_origin[1] * src_row_pitch + src_origin[0];
-  size_t dst_offset = dst_origin[2] * dst_slice_pitch +
-                      dst_origin[1] * dst_row_pitch + dst_origin[0];
-
-  // Ensure buffer region valid
-  size_t src_end = src_offset + region[0] + (region[1] - 1) * src_row_pitch +
-                   (region[2] - 1) * src_slice_pitch;
-  size_t dst_end = dst_offset + region[0] + (region[1] - 1) * dst_row_pitch +
-                   (region[2] - 1) * dst_slice_pitch;
-  if (src_end > src_buffer->size)
+  // Compute pitches and offsets, and ensure that regions are valid
+  size_t src_offset, dst_offset;
+  if (!prepareRect(src_origin, region, src_row_pitch, src_slice_pitch,
+                   src_buffer->size, src_offset))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "Region exceeds source buffer size (" << src_buffer->size
-                                                          << " bytes)");
+                    "Region invalid for source buffer size ("
+                      << src_buffer->size << " bytes)");
   }
-  if (dst_end > dst_buffer->size)
+  if (!prepareRect(dst_origin, region, dst_row_pitch, dst_slice_pitch,
+                   dst_buffer->size, dst_offset))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "Region exceeds destination buffer size ("
+                    "Region invalid for destination buffer size ("
                       << dst_buffer->size << " bytes)");
   }
+  if (doRectsOverlap(src_buffer->address + src_offset, src_row_pitch,
+                     src_slice_pitch, dst_buffer->address + dst_offset,
+                     dst_row_pitch, dst_slice_pitch, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_MEM_COPY_OVERLAP,
+                    "Source and destination regions overlap");
+  }
 
   // Enqueue command
   oclgrind::CopyRectCommand* cmd = new oclgrind::CopyRectCommand();
-- 
2.43.0


From 837b4e3d7f6bef1a15a72cc7c95c121fc2d1b470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 13/82] fix: image transfers check every dimension of their
 region, honour pitches and saturate fill colours

---
 src/runtime/runtime.cpp | 293 ++++++++++++++++++++++++++--------------
 1 file changed, 194 insertions(+), 99 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index ac4e3c5..4ddb18d 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1678,6 +1678,64 @@ bool isImageArray(cl_mem_object_type type)
   return false;
 }
 
+// Utility function for computing the distance (in bytes) between the rows and
+// between the slices of an image (the layers of a 1D array are its rows)
+void getImagePitches(const cl_image* image, size_t& row_pitch,
+                     size_t& slice_pitch)
+{
+  row_pitch = image->desc.image_width * getPixelSize(&image->format);
+  slice_pitch = image->desc.image_height * row_pitch;
+  if (image->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
+  {
+    slice_pitch *= image->desc.image_array_size;
+  }
+}
+
+// Utility function for computing the slice pitch that queries and mapping
+// report: zero unless the image has slices or layers
+size_t getReportedSlicePitch(const cl_image* image)
+{
+  size_t row_pitch, slice_pitch;
+  getImagePitches(image, row_pitch, slice_pitch);
+  switch (image->desc.image_type)
+  {
+  case CL_MEM_OBJECT_IMAGE1D_ARRAY:
+    return row_pitch;
+  case CL_MEM_OBJECT_IMAGE2D_ARRAY:
+  case CL_MEM_OBJECT_IMAGE3D:
+    return slice_pitch;
+  default:
+    return 0;
+  }
+}
+
+// Utility function for checking that a region is not empty and lies inside an
+// image
+bool isImageRegionValid(const cl_image* image, const size_t* origin,
+                        const size_t* region)
+{
+  if (!origin || !region)
+  {
+    return false;
+  }
+
+  size_t size[3] = {image->desc.image_width, image->desc.image_height,
+                    image->desc.image_depth};
+  if (image->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
+    size[1] = image->desc.image_array_size;
+  if (image->desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
+    size[2] = image->desc.image_array_size;
+
+  for (unsigned i = 0; i < 3; i++)
+  {
+    if (!region[i] || !isRangeValid(origin[i], region[i], size[i]))
+    {
+      return false;
+    }
+  }
+  return true;
+}
+
 cl_mem createImage(cl_context context, cl_mem_flags flags,
                    const cl_image_format* image_format,
                    const cl_image_desc* image_desc, void* host_ptr,
@@ -1741,6 +1799,13 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
                    "when using CL_MEM_OBJECT_IMAGE1D_BUFFER");
       return NULL;
     }
+    if (size > image_desc->buffer->size)
+    {
+      SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR,
+                   "Image size (" << size << " bytes) exceeds buffer size ("
+                                  << image_desc->buffer->size << " bytes)");
+      return NULL;
+    }
     mem = image_desc->buffer;
     clRetainMemObject(image_desc->buffer);
   }
@@ -1753,8 +1818,51 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   }
   else
   {
+    // Remove any padding between the rows and slices of the data to copy
+    // TODO: Use pitches with CL_MEM_USE_HOST_PTR
+    std::vector<unsigned char> packed;
+    if (host_ptr && (flags & CL_MEM_COPY_HOST_PTR))
+    {
+      // The rows of a 1D array are its layers
+      size_t rowSize = width * pixelSize;
+      bool is1DArray = image_desc->image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY;
+      size_t rows = is1DArray ? arraySize : height;
+      size_t slices = is1DArray ? 1 : depth * arraySize;
+      size_t rowPitch = image_desc->image_row_pitch;
+      if (!rowPitch)
+      {
+        rowPitch = rowSize;
+      }
+      if (is1DArray && image_desc->image_slice_pitch)
+      {
+        rowPitch = image_desc->image_slice_pitch;
+      }
+      size_t slicePitch = rowPitch * rows;
+      if (slices > 1 && image_desc->image_slice_pitch)
+      {
+        slicePitch = image_desc->image_slice_pitch;
+      }
+      if (rowPitch < rowSize || slicePitch < rowPitch * rows)
+      {
+        SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR,
+                     "Pitches smaller than rows or slices of image");
+        return NULL;
+      }
+
+      packed.reserve(size);
+      for (size_t slice = 0; slice < slices; slice++)
+      {
+        for (size_t row = 0; row < rows; row++)
+        {
+          const unsigned char* data = (const unsigned char*)host_ptr +
+                                      slice * slicePitch + row * rowPitch;
+          packed.insert(packed.end(), data, data + rowSize);
+        }
+      }
+      host_ptr = packed.data();
+    }
+
     // Create buffer
-    // TODO: Use pitches
     mem = createBuffer(context, flags, size, host_ptr, errcode_ret);
     if (!mem)
     {
@@ -2161,11 +2269,11 @@ CL_API_ENTRY cl_int CL_API_CALL clGetImageInfo(
     break;
   case CL_IMAGE_ROW_PITCH:
     result_size = sizeof(size_t);
-    result_data.sizet = img->desc.image_row_pitch;
+    result_data.sizet = img->desc.image_width * getPixelSize(&img->format);
     break;
   case CL_IMAGE_SLICE_PITCH:
     result_size = sizeof(size_t);
-    result_data.sizet = img->desc.image_slice_pitch;
+    result_data.sizet = getReportedSlicePitch(img);
     break;
   case CL_IMAGE_WIDTH:
     result_size = sizeof(size_t);
@@ -4389,11 +4497,6 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, fill_color);
   }
-  if (!region[0] || !region[1] || !region[2])
-  {
-    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "Values in region cannot be 0");
-  }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
       err != CL_SUCCESS)
@@ -4401,46 +4504,19 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
     return err;
   }
 
-  // Get image dimensions
   cl_image* img = (cl_image*)image;
-  size_t width = img->desc.image_width;
-  size_t height = img->desc.image_height;
-  size_t depth = img->desc.image_depth;
-  size_t arraySize = img->desc.image_array_size;
-  size_t pixelSize = getPixelSize(&img->format);
-  size_t row_pitch = width * pixelSize;
-  size_t slice_pitch = height * row_pitch;
-
-  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
-    height = arraySize;
-  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
-    depth = arraySize;
-
-  // Ensure region is within image bounds
-  if (origin[0] + region[0] > width)
-  {
-    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "origin[0] + region[0] > width ("
-                      << origin[0] << " + " << region[0] << " > " << width
-                      << " )");
-  }
-  if (origin[1] + region[1] > height)
-  {
-    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "origin[1] + region[1] > height ("
-                      << origin[1] << " + " << region[1] << " > " << height
-                      << " )");
-  }
-  if (origin[2] + region[2] > depth)
+  if (!isImageRegionValid(img, origin, region))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "origin[2] + region[2] > depth ("
-                      << origin[2] << " + " << region[2] << " > " << depth
-                      << " )");
+                    "Region empty or not inside image");
   }
+  size_t pixelSize = getPixelSize(&img->format);
+  size_t row_pitch, slice_pitch;
+  getImagePitches(img, row_pitch, slice_pitch);
 
   // Generate color data with correct order and data type
-  unsigned char* color = new unsigned char[pixelSize];
+  std::vector<unsigned char> colorData(pixelSize);
+  unsigned char* color = colorData.data();
   for (unsigned output = 0; output < getNumChannels(&img->format); output++)
   {
     // Get input channel index
@@ -4492,7 +4568,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
     {
     case CL_SNORM_INT8:
       ((int8_t*)color)[output] =
-        rint(min(max(((float*)fill_color)[input] * 127.f, -127.f), 128.f));
+        rint(min(max(((float*)fill_color)[input] * 127.f, -128.f), 127.f));
       break;
     case CL_UNORM_INT8:
       ((uint8_t*)color)[output] =
@@ -4514,19 +4590,23 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
         cl_half_from_float(((float*)fill_color)[input], CL_HALF_RTE);
       break;
     case CL_SIGNED_INT8:
-      ((int8_t*)color)[output] = ((int32_t*)fill_color)[input];
+      ((int8_t*)color)[output] =
+        min(max(((int32_t*)fill_color)[input], -128), 127);
       break;
     case CL_SIGNED_INT16:
-      ((int16_t*)color)[output] = ((int32_t*)fill_color)[input];
+      ((int16_t*)color)[output] =
+        min(max(((int32_t*)fill_color)[input], -32768), 32767);
       break;
     case CL_SIGNED_INT32:
       ((int32_t*)color)[output] = ((int32_t*)fill_color)[input];
       break;
     case CL_UNSIGNED_INT8:
-      ((uint8_t*)color)[output] = ((uint32_t*)fill_color)[input];
+      ((uint8_t*)color)[output] =
+        min(((uint32_t*)fill_color)[input], 255u);
       break;
     case CL_UNSIGNED_INT16:
-      ((uint16_t*)color)[output] = ((uint32_t*)fill_color)[input];
+      ((uint16_t*)color)[output] =
+        min(((uint32_t*)fill_color)[input], 65535u);
       break;
     case CL_UNSIGNED_INT32:
       ((uint32_t*)color)[output] = ((uint32_t*)fill_color)[input];
@@ -4542,7 +4622,6 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
   asyncQueueRetain(cmd, image);
   asyncEnqueue(command_queue, CL_COMMAND_FILL_IMAGE, cmd,
                num_events_in_wait_list, event_wait_list, event);
-  delete[] color;
 
   return CL_SUCCESS;
 }
@@ -4572,14 +4651,19 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
   }
 
   cl_image* img = (cl_image*)image;
+  if (!isImageRegionValid(img, origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region empty or not inside image");
+  }
 
   size_t pixelSize = getPixelSize(&img->format);
   size_t buffer_origin[3] = {origin[0] * pixelSize, origin[1], origin[2]};
   size_t pixel_region[3] = {region[0] * pixelSize, region[1], region[2]};
   size_t host_origin[3] = {0, 0, 0};
 
-  size_t img_row_pitch = img->desc.image_width * pixelSize;
-  size_t img_slice_pitch = img->desc.image_height * img_row_pitch;
+  size_t img_row_pitch, img_slice_pitch;
+  getImagePitches(img, img_row_pitch, img_slice_pitch);
   if (row_pitch == 0)
   {
     row_pitch = pixel_region[0];
@@ -4588,6 +4672,17 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
   {
     slice_pitch = pixel_region[1] * row_pitch;
   }
+  else if (img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
+  {
+    // The layers of a 1D array are the rows of the region
+    if (slice_pitch < row_pitch)
+    {
+      ReturnErrorArg(command_queue->context, CL_INVALID_VALUE,
+                     slice_pitch);
+    }
+    row_pitch = slice_pitch;
+    slice_pitch = pixel_region[1] * row_pitch;
+  }
 
   // Enqueue read
   cl_int ret = clEnqueueReadBufferRect(
@@ -4626,14 +4721,19 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
   }
 
   cl_image* img = (cl_image*)image;
+  if (!isImageRegionValid(img, origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region empty or not inside image");
+  }
 
   size_t pixelSize = getPixelSize(&img->format);
   size_t buffer_origin[3] = {origin[0] * pixelSize, origin[1], origin[2]};
   size_t pixel_region[3] = {region[0] * pixelSize, region[1], region[2]};
   size_t host_origin[3] = {0, 0, 0};
 
-  size_t img_row_pitch = img->desc.image_width * pixelSize;
-  size_t img_slice_pitch = img->desc.image_height * img_row_pitch;
+  size_t img_row_pitch, img_slice_pitch;
+  getImagePitches(img, img_row_pitch, img_slice_pitch);
   if (input_row_pitch == 0)
   {
     input_row_pitch = pixel_region[0];
@@ -4642,6 +4742,17 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
   {
     input_slice_pitch = pixel_region[1] * input_row_pitch;
   }
+  else if (img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
+  {
+    // The layers of a 1D array are the rows of the region
+    if (input_slice_pitch < input_row_pitch)
+    {
+      ReturnErrorArg(command_queue->context, CL_INVALID_VALUE,
+                     input_slice_pitch);
+    }
+    input_row_pitch = input_slice_pitch;
+    input_slice_pitch = pixel_region[1] * input_row_pitch;
+  }
 
   // Enqueue write
   cl_int ret = clEnqueueWriteBufferRect(
@@ -4698,6 +4809,13 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImage(
     return err;
   }
 
+  if (!isImageRegionValid(src, src_origin, region) ||
+      !isImageRegionValid(dst, dst_origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region empty or not inside image");
+  }
+
   size_t srcPixelSize = getPixelSize(&src->format);
   size_t dstPixelSize = getPixelSize(&dst->format);
 
@@ -4707,10 +4825,9 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImage(
                                 dst_origin[2]};
   size_t pixel_region[3] = {region[0] * srcPixelSize, region[1], region[2]};
 
-  size_t src_row_pitch = src->desc.image_width * srcPixelSize;
-  size_t src_slice_pitch = src->desc.image_height * src_row_pitch;
-  size_t dst_row_pitch = dst->desc.image_width * dstPixelSize;
-  size_t dst_slice_pitch = dst->desc.image_height * dst_row_pitch;
+  size_t src_row_pitch, src_slice_pitch, dst_row_pitch, dst_slice_pitch;
+  getImagePitches(src, src_row_pitch, src_slice_pitch);
+  getImagePitches(dst, dst_row_pitch, dst_slice_pitch);
 
   // Enqueue copy
   cl_int ret = clEnqueueCopyBufferRect(
@@ -4753,11 +4870,16 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImageToBuffer(
   }
 
   cl_image* src = (cl_image*)src_image;
+  if (!isImageRegionValid(src, src_origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region empty or not inside image");
+  }
   size_t pixel_size = getPixelSize(&src->format);
   size_t src_pixel_origin[3] = {src_origin[0] * pixel_size, src_origin[1],
                                 src_origin[2]};
-  size_t src_row_pitch = src->desc.image_width * pixel_size;
-  size_t src_slice_pitch = src->desc.image_height * src_row_pitch;
+  size_t src_row_pitch, src_slice_pitch;
+  getImagePitches(src, src_row_pitch, src_slice_pitch);
 
   size_t pixel_region[3] = {region[0] * pixel_size, region[1], region[2]};
   size_t dst_origin[3] = {dst_offset, 0, 0};
@@ -4803,11 +4925,16 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferToImage(
   }
 
   cl_image* dst = (cl_image*)dst_image;
+  if (!isImageRegionValid(dst, dst_origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region empty or not inside image");
+  }
   size_t pixel_size = getPixelSize(&dst->format);
   size_t dst_pixel_origin[3] = {dst_origin[0] * pixel_size, dst_origin[1],
                                 dst_origin[2]};
-  size_t dst_row_pitch = dst->desc.image_width * pixel_size;
-  size_t dst_slice_pitch = dst->desc.image_height * dst_row_pitch;
+  size_t dst_row_pitch, dst_slice_pitch;
+  getImagePitches(dst, dst_row_pitch, dst_slice_pitch);
 
   size_t pixel_region[3] = {region[0] * pixel_size, region[1], region[2]};
   size_t src_origin[3] = {src_offset, 0, 0};
@@ -4945,11 +5072,6 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                  "Image flags specify host will not read data");
     return NULL;
   }
-  if (!region[0] || !region[1] || !region[2])
-  {
-    SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                 "Values in region cannot be 0");
-  }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
       err != CL_SUCCESS)
@@ -4961,43 +5083,16 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
     return nullptr;
   }
 
-  // Get image dimensions
   cl_image* img = (cl_image*)image;
-  size_t width = img->desc.image_width;
-  size_t height = img->desc.image_height;
-  size_t depth = img->desc.image_depth;
-  size_t arraySize = img->desc.image_array_size;
-  size_t pixelSize = getPixelSize(&img->format);
-  size_t row_pitch = width * pixelSize;
-  size_t slice_pitch = height * row_pitch;
-
-  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
-    height = arraySize;
-  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
-    depth = arraySize;
-
-  // Ensure region is within image bounds
-  if (origin[0] + region[0] > width)
+  if (!isImageRegionValid(img, origin, region))
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                 "origin[0] + region[0] > width ("
-                   << origin[0] << " + " << region[0] << " > " << width
-                   << " )");
-  }
-  if (origin[1] + region[1] > height)
-  {
-    SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                 "origin[1] + region[1] > height ("
-                   << origin[1] << " + " << region[1] << " > " << height
-                   << " )");
-  }
-  if (origin[2] + region[2] > depth)
-  {
-    SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                 "origin[2] + region[2] > depth ("
-                   << origin[2] << " + " << region[2] << " > " << depth
-                   << " )");
+                 "Region empty or not inside image");
+    return NULL;
   }
+  size_t pixelSize = getPixelSize(&img->format);
+  size_t row_pitch, slice_pitch;
+  getImagePitches(img, row_pitch, slice_pitch);
 
   // Compute byte offset and size
   size_t offset =
@@ -5017,7 +5112,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
   *image_row_pitch = row_pitch;
   if (image_slice_pitch)
   {
-    *image_slice_pitch = slice_pitch;
+    *image_slice_pitch = getReportedSlicePitch(img);
   }
 
   // Enqueue command
-- 
2.43.0


From f9e7818c876a02c8a1c9b3a3717273d5b8b89edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 14/82] fix: linear filtering without an addressing mode reads
 the adjacent pixels

---
 src/core/WorkItemBuiltins.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index d09483c..4d6107f 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -920,8 +920,8 @@ class WorkItemBuiltins
     switch (sampler & CLK_ADDRESS_MASK)
     {
     case CLK_ADDRESS_NONE:
-      *c0 = floor(u);
-      *c1 = floor(u) + 1;
+      *c0 = floorf(u - 0.5f);
+      *c1 = *c0 + 1;
       return u;
     case CLK_ADDRESS_CLAMP_TO_EDGE:
       *c0 = _clamp_<int>(floorf(u - 0.5f), 0, size - 1);
-- 
2.43.0


From 021b9010db3e73b33d9185fc236abcaaf77300f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 15/82] fix: kernels running in different contexts must not
 share their work-group counter

---
 src/core/KernelInvocation.cpp | 14 +++++---------
 src/core/KernelInvocation.h   |  3 +++
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index b6a6ca5..f220314 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -8,7 +8,6 @@
 
 #include "common.h"
 
-#include <atomic>
 #include <sstream>
 #include <thread>
 
@@ -30,8 +29,6 @@ struct
   WorkItem* workItem;
 } static THREAD_LOCAL workerState;
 
-static atomic<unsigned> nextGroupIndex;
-
 KernelInvocation::KernelInvocation(const Context* context, const Kernel* kernel,
                                    unsigned int workDim, Size3 globalOffset,
                                    Size3 globalSize, Size3 localSize)
@@ -41,6 +38,7 @@ KernelInvocation::KernelInvocation(const Context* context, const Kernel* kernel,
   m_globalOffset = globalOffset;
   m_globalSize = globalSize;
   m_localSize = localSize;
+  m_nextGroupIndex = 0;
 
   m_numGroups.x = m_globalSize.x / m_localSize.x;
   m_numGroups.y = m_globalSize.y / m_localSize.y;
@@ -156,8 +154,6 @@ void KernelInvocation::run(const Context* context, Kernel* kernel,
 
 void KernelInvocation::run()
 {
-  nextGroupIndex = 0;
-
   // Create worker threads
   // TODO: Run in main thread if only 1 worker
   vector<thread> threads;
@@ -197,7 +193,7 @@ void KernelInvocation::runWorker(int id)
       else
       {
         // Take next work-group from pending pool
-        unsigned index = nextGroupIndex++;
+        unsigned index = m_nextGroupIndex++;
         if (index >= m_workGroups.size())
           // No more work to do
           break;
@@ -297,7 +293,7 @@ bool KernelInvocation::switchWorkItem(const Size3 gid)
   if (!found)
   {
     std::vector<Size3>::iterator pItr;
-    for (pItr = m_workGroups.begin() + nextGroupIndex;
+    for (pItr = m_workGroups.begin() + m_nextGroupIndex;
          pItr != m_workGroups.end(); pItr++)
     {
       if (group == *pItr)
@@ -309,8 +305,8 @@ bool KernelInvocation::switchWorkItem(const Size3 gid)
         // Re-order list of groups accordingly
         // Safe since this is not in a multi-threaded context
         m_workGroups.erase(pItr);
-        m_workGroups.insert(m_workGroups.begin() + nextGroupIndex, group);
-        nextGroupIndex++;
+        m_workGroups.insert(m_workGroups.begin() + m_nextGroupIndex, group);
+        m_nextGroupIndex++;
 
         break;
       }
diff --git a/src/core/KernelInvocation.h b/src/core/KernelInvocation.h
index ef03c8e..0eebd6e 100644
--- a/src/core/KernelInvocation.h
+++ b/src/core/KernelInvocation.h
@@ -8,6 +8,8 @@
 
 #include "common.h"
 
+#include <atomic>
+
 namespace oclgrind
 {
 class Context;
@@ -53,6 +55,7 @@ private:
   // Current execution state
   std::vector<Size3> m_workGroups;
   std::list<WorkGroup*> m_runningGroups;
+  std::atomic<unsigned> m_nextGroupIndex;
 
   // Worker threads
   void runWorker(int id);
-- 
2.43.0


From 4e3a2a3c3866dc61c4839998123653f08d6dd604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 16/82] fix: queues of different contexts may be used by
 different host threads

---
 src/runtime/async_queue.cpp | 71 ++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 24 deletions(-)

diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index a1641f4..1fbef3a 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -12,6 +12,7 @@
 #include <iostream>
 #include <list>
 #include <map>
+#include <mutex>
 
 #include "core/Kernel.h"
 #include "core/Queue.h"
@@ -19,7 +20,8 @@
 using namespace oclgrind;
 using namespace std;
 
-// Maps to keep track of retained objects
+// Maps to keep track of retained objects, shared by the queues of all contexts
+static mutex mapsMutex;
 static map<Command*, list<cl_mem>> memObjectMap;
 static map<Command*, cl_kernel> kernelMap;
 static map<Command*, cl_event> eventMap;
@@ -33,8 +35,9 @@ void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
   for (unsigned i = 0; i < numEvents; i++)
   {
     cmd->waitList.push_back(waitList[i]->event);
-    waitListMap[cmd].push_back(waitList[i]);
     clRetainEvent(waitList[i]);
+    lock_guard<mutex> lock(mapsMutex);
+    waitListMap[cmd].push_back(waitList[i]);
   }
 
   // Enqueue command
@@ -51,7 +54,10 @@ void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
   clRetainContext(queue->context);
 
   // Add event to map
-  eventMap[cmd] = _event;
+  {
+    lock_guard<mutex> lock(mapsMutex);
+    eventMap[cmd] = _event;
+  }
 
   // Pass event as output and retain (if required)
   if (eventOut)
@@ -65,16 +71,19 @@ void asyncQueueRetain(Command* cmd, cl_mem mem)
 {
   // Retain object and add to map
   clRetainMemObject(mem);
+  lock_guard<mutex> lock(mapsMutex);
   memObjectMap[cmd].push_back(mem);
 }
 
 void asyncQueueRetain(Command* cmd, cl_kernel kernel)
 {
-  assert(kernelMap.find(cmd) == kernelMap.end());
-
   // Retain kernel and add to map
   clRetainKernel(kernel);
-  kernelMap[cmd] = kernel;
+  {
+    lock_guard<mutex> lock(mapsMutex);
+    assert(kernelMap.find(cmd) == kernelMap.end());
+    kernelMap[cmd] = kernel;
+  }
 
   // Retain memory objects arguments
   map<cl_uint, cl_mem>::const_iterator itr;
@@ -86,31 +95,47 @@ void asyncQueueRetain(Command* cmd, cl_kernel kernel)
 
 void asyncQueueRelease(Command* cmd)
 {
-  // Release memory objects
-  if (memObjectMap.find(cmd) != memObjectMap.end())
+  // Take the retained objects from the maps
+  list<cl_mem> memObjects;
+  list<cl_event> waitList;
+  cl_kernel kernel = NULL;
+  cl_event event;
   {
-    list<cl_mem> memObjects = memObjectMap[cmd];
-    while (!memObjects.empty())
+    lock_guard<mutex> lock(mapsMutex);
+    if (memObjectMap.find(cmd) != memObjectMap.end())
     {
-      clReleaseMemObject(memObjects.front());
-      memObjects.pop_front();
+      memObjects.swap(memObjectMap[cmd]);
+      memObjectMap.erase(cmd);
     }
-    memObjectMap.erase(cmd);
+    if (cmd->type == Command::KERNEL)
+    {
+      assert(kernelMap.find(cmd) != kernelMap.end());
+      kernel = kernelMap[cmd];
+      kernelMap.erase(cmd);
+    }
+    if (waitListMap.find(cmd) != waitListMap.end())
+    {
+      waitList.swap(waitListMap[cmd]);
+      waitListMap.erase(cmd);
+    }
+    event = eventMap[cmd];
+    eventMap.erase(cmd);
+  }
+
+  // Release memory objects
+  while (!memObjects.empty())
+  {
+    clReleaseMemObject(memObjects.front());
+    memObjects.pop_front();
   }
 
   // Release kernel
-  if (cmd->type == Command::KERNEL)
+  if (kernel)
   {
-    assert(kernelMap.find(cmd) != kernelMap.end());
-    clReleaseKernel(kernelMap[cmd]);
-    kernelMap.erase(cmd);
+    clReleaseKernel(kernel);
     delete ((KernelCommand*)cmd)->kernel;
   }
 
-  // Remove event from map
-  cl_event event = eventMap[cmd];
-  eventMap.erase(cmd);
-
   // Perform callbacks
   list<pair<void(CL_CALLBACK*)(cl_event, cl_int, void*), void*>>::iterator
     callItr;
@@ -122,11 +147,9 @@ void asyncQueueRelease(Command* cmd)
 
   // Release events
   list<cl_event>::iterator waitItr;
-  for (waitItr = waitListMap[cmd].begin(); waitItr != waitListMap[cmd].end();
-       waitItr++)
+  for (waitItr = waitList.begin(); waitItr != waitList.end(); waitItr++)
   {
     clReleaseEvent(*waitItr);
   }
-  waitListMap.erase(cmd);
   clReleaseEvent(event);
 }
-- 
2.43.0


From 8a5df16619aae253e62a455ff3528d788cea208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 17/82] fix: use the work-group size a kernel requires when the
 host gives none

---
 src/runtime/runtime.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 4ddb18d..5103b15 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5241,6 +5241,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   size_t reqdWorkGroupSize[3];
   size_t totalWGSize = 1;
   kernel->kernel->getRequiredWorkGroupSize(reqdWorkGroupSize);
+  if (!local_work_size && reqdWorkGroupSize[0])
+  {
+    // The kernel determines the size
+    local_work_size = reqdWorkGroupSize;
+  }
   for (unsigned i = 0; i < work_dim; i++)
   {
     if (local_work_size && local_work_size[i] == 0)
-- 
2.43.0


From 44448e9f4be46392a856908be533e79ad8fdb689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 18/82] fix: report asynchronous copies whose event argument
 diverges

---
 src/core/WorkGroup.cpp | 10 +++++++---
 src/core/WorkGroup.h   |  1 +
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/WorkGroup.cpp b/src/core/WorkGroup.cpp
index da03897..edda4e4 100644
--- a/src/core/WorkGroup.cpp
+++ b/src/core/WorkGroup.cpp
@@ -92,6 +92,7 @@ size_t WorkGroup::async_copy(const WorkItem* workItem,
 {
   AsyncCopy copy = {instruction, type, dest,      src,
                     size,        num,  srcStride, destStride,
+                    event,
 
                     event};
 
@@ -111,7 +112,8 @@ size_t WorkGroup::async_copy(const WorkItem* workItem,
         (itr->first.src != copy.src) || (itr->first.size != copy.size) ||
         (itr->first.num != copy.num) ||
         (itr->first.srcStride != copy.srcStride) ||
-        (itr->first.destStride != copy.destStride))
+        (itr->first.destStride != copy.destStride) ||
+        (itr->first.eventArg != copy.eventArg))
     {
       Context::Message msg(ERROR, m_context);
       msg << "Work-group divergence detected (async copy)" << endl
@@ -125,7 +127,8 @@ size_t WorkGroup::async_copy(const WorkItem* workItem,
           << "elem_size=" << dec << copy.size << ", "
           << "num_elems=" << dec << copy.num << ", "
           << "src_stride=" << dec << copy.srcStride << ", "
-          << "dest_stride=" << dec << copy.destStride << endl
+          << "dest_stride=" << dec << copy.destStride << ", "
+          << "event=" << dec << copy.eventArg << endl
           << endl
           << "Previous work-items executed:" << endl
           << itr->first.instruction << endl
@@ -134,7 +137,8 @@ size_t WorkGroup::async_copy(const WorkItem* workItem,
           << "elem_size=" << dec << itr->first.size << ", "
           << "num_elems=" << dec << itr->first.num << ", "
           << "src_stride=" << dec << itr->first.srcStride << ", "
-          << "dest_stride=" << dec << itr->first.destStride << endl;
+          << "dest_stride=" << dec << itr->first.destStride << ", "
+          << "event=" << dec << itr->first.eventArg << endl;
       msg.send();
     }
 
diff --git a/src/core/WorkGroup.h b/src/core/WorkGroup.h
index 40a32da..1508fce 100644
--- a/src/core/WorkGroup.h
+++ b/src/core/WorkGroup.h
@@ -46,6 +46,7 @@ private:
     size_t num;
     size_t srcStride;
     size_t destStride;
+    size_t eventArg; // event the call was given (0 for none)
 
     size_t event;
   };
-- 
2.43.0


From d70c621ce364fbc748df7050148512d6d4cdf79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 19/82] fix: a kernel owns only its own local variables, not
 those of kernels whose name starts with its name

---
 src/core/Kernel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index 84af079..c367827 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -51,7 +51,8 @@ Kernel::Kernel(const Program* program, const llvm::Function* function,
     case AddrSpaceLocal:
     {
       // Check that local memory variable belongs to this kernel
-      if (!itr->getName().starts_with(m_name))
+      // (named "<kernel>.<variable>")
+      if (!itr->getName().starts_with(m_name + "."))
         continue;
 
       // Get size of allocation
-- 
2.43.0


From 0c48561c15687b8d0bd402ff373a86ba1d5402f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 20/82] fix: an asynchronous copy or memcpy does not store what
 it could not load

---
 src/core/WorkGroup.cpp        | 5 +++--
 src/core/WorkItemBuiltins.cpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/WorkGroup.cpp b/src/core/WorkGroup.cpp
index edda4e4..7f54994 100644
--- a/src/core/WorkGroup.cpp
+++ b/src/core/WorkGroup.cpp
@@ -218,8 +218,9 @@ void WorkGroup::clearBarrier()
       unsigned char* buffer = new unsigned char[itr->size];
       for (unsigned i = 0; i < itr->num; i++)
       {
-        srcMem->load(buffer, src, itr->size);
-        destMem->store(buffer, dest, itr->size);
+        // Elements outside the source cannot be copied
+        if (srcMem->load(buffer, src, itr->size))
+          destMem->store(buffer, dest, itr->size);
         src += itr->srcStride * itr->size;
         dest += itr->destStride * itr->size;
       }
diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 4d6107f..49b4285 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3576,8 +3576,8 @@ class WorkItemBuiltins
     unsigned srcAddrSpace = memcpyInst->getSourceAddressSpace();
 
     unsigned char* buffer = workItem->m_pool.alloc(size);
-    workItem->getMemory(srcAddrSpace)->load(buffer, src, size);
-    workItem->getMemory(destAddrSpace)->store(buffer, dest, size);
+    if (workItem->getMemory(srcAddrSpace)->load(buffer, src, size))
+      workItem->getMemory(destAddrSpace)->store(buffer, dest, size);
   }
 
   DEFINE_BUILTIN(llvm_memset)
-- 
2.43.0


From 7a824544f3533eeb283598e79377b8c946dfc359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 21/82] fix: a mapping covers exactly the mapped range of its
 buffer

---
 src/plugins/MemCheck.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/plugins/MemCheck.cpp b/src/plugins/MemCheck.cpp
index 7567f26..0f6da5b 100644
--- a/src/plugins/MemCheck.cpp
+++ b/src/plugins/MemCheck.cpp
@@ -79,7 +79,8 @@ void MemCheck::memoryLoad(const Memory* memory, const WorkGroup* workGroup,
 void MemCheck::memoryMap(const Memory* memory, size_t address, size_t offset,
                          size_t size, cl_map_flags flags)
 {
-  MapRegion map = {address, offset, size, memory->getPointer(address + offset),
+  MapRegion map = {address + offset, offset, size,
+                   memory->getPointer(address + offset),
                    (flags == CL_MAP_READ ? MapRegion::READ : MapRegion::WRITE)};
   m_mapRegions.push_back(map);
 }
@@ -177,7 +178,7 @@ void MemCheck::checkLoad(const Memory* memory, size_t address,
   {
     if (region->type == MapRegion::WRITE &&
         address < region->address + region->size &&
-        address + size >= region->address)
+        address + size > region->address)
     {
       m_context->logError("Invalid read from buffer mapped for writing");
     }
@@ -207,7 +208,7 @@ void MemCheck::checkStore(const Memory* memory, size_t address,
        region++)
   {
     if (address < region->address + region->size &&
-        address + size >= region->address)
+        address + size > region->address)
     {
       m_context->logError("Invalid write to mapped buffer");
     }
-- 
2.43.0


From c099fa60a9d0fc27d491093dd155acf51450dfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 22/82] fix: check constant indices of local and constant
 arrays against the array's size

---
 src/plugins/MemCheck.cpp | 5 +++--
 src/plugins/MemCheck.h   | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/plugins/MemCheck.cpp b/src/plugins/MemCheck.cpp
index 0f6da5b..a15dd64 100644
--- a/src/plugins/MemCheck.cpp
+++ b/src/plugins/MemCheck.cpp
@@ -13,6 +13,7 @@
 #include "core/WorkItem.h"
 
 #include "llvm/IR/Instructions.h"
+#include "llvm/IR/Operator.h"
 #include "llvm/IR/Type.h"
 
 #include "MemCheck.h"
@@ -44,7 +45,7 @@ void MemCheck::instructionExecuted(const WorkItem* workItem,
 
   // Walk up chain of GEP instructions leading to this access
   while (auto GEPI =
-           llvm::dyn_cast<llvm::GetElementPtrInst>(PtrOp->stripPointerCasts()))
+           llvm::dyn_cast<llvm::GEPOperator>(PtrOp->stripPointerCasts()))
   {
     checkArrayAccess(workItem, GEPI);
 
@@ -114,7 +115,7 @@ void MemCheck::memoryUnmap(const Memory* memory, size_t address,
 }
 
 void MemCheck::checkArrayAccess(const WorkItem* workItem,
-                                const llvm::GetElementPtrInst* GEPI) const
+                                const llvm::GEPOperator* GEPI) const
 {
   // Iterate through GEPI indices
   const llvm::Type* ptrType = GEPI->getPointerOperandType();
diff --git a/src/plugins/MemCheck.h b/src/plugins/MemCheck.h
index c5e80cc..2f5a06c 100644
--- a/src/plugins/MemCheck.h
+++ b/src/plugins/MemCheck.h
@@ -10,7 +10,7 @@
 
 namespace llvm
 {
-class GetElementPtrInst;
+class GEPOperator;
 }
 
 namespace oclgrind
@@ -46,7 +46,7 @@ public:
 
 private:
   void checkArrayAccess(const WorkItem* workItem,
-                        const llvm::GetElementPtrInst* GEPI) const;
+                        const llvm::GEPOperator* GEPI) const;
   void checkLoad(const Memory* memory, size_t address, size_t size) const;
   void checkStore(const Memory* memory, size_t address, size_t size) const;
   void logInvalidAccess(bool read, unsigned addrSpace, size_t address,
-- 
2.43.0


From 4a16bcf1ef15ccd3401931b7943871e7aecf2dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 23/82] fix: partial vector stores neither rely on an outdated
 load nor write undefined elements

A store of a vector with some elements inserted is turned into stores of
these elements only. The other elements have to be written as well if the
vector was loaded before a write to memory, and there is nothing else to
write if the vector was undefined: writing it anyway was taken for a write
of a different value by the race detector.
---
 src/core/Program.cpp | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index e307af3..ac79d36 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -1023,6 +1023,21 @@ llvm::GetElementPtrInst* createScalarGEP(llvm::Value* ptr, llvm::Value* index,
 
   return scalarPtr;
 }
+
+// Check whether a load still yields the contents of memory at a store
+bool isLoadCurrent(const llvm::LoadInst* load, const llvm::StoreInst* store)
+{
+  if (load->getParent() != store->getParent())
+    return false;
+
+  for (const llvm::Instruction* inst = load->getNextNode(); inst != store;
+       inst = inst->getNextNode())
+  {
+    if (!inst || inst->mayWriteToMemory())
+      return false;
+  }
+  return true;
+}
 } // namespace
 
 void Program::scalarizeAggregateStore(llvm::StoreInst* store)
@@ -1041,6 +1056,15 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
     llvm::Value* value = insert->getOperand(1);
     llvm::Value* index = insert->getOperand(2);
 
+    // Check if the input to the insertelement instruction came from something
+    // other than a load to the same address as the store
+    // (there is nothing to store if the input is undefined)
+    llvm::LoadInst* load = llvm::dyn_cast<llvm::LoadInst>(vector);
+    bool storeInput =
+      !llvm::isa<llvm::UndefValue>(vector) &&
+      !(load && load->getPointerOperand() == store->getPointerOperand() &&
+        isLoadCurrent(load, store));
+
     // Create GEP for scalar value
     llvm::GetElementPtrInst* scalarPtr =
       createScalarGEP(vectorPtr, index, store, gepIndexType);
@@ -1052,10 +1076,7 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
     scalarStore->setDebugLoc(store->getDebugLoc());
     scalarStore->insertAfter(scalarPtr);
 
-    // Check if the input to the insertelement instruction came from something
-    // other than a load to the same address as the store
-    llvm::LoadInst* load = llvm::dyn_cast<llvm::LoadInst>(vector);
-    if (!(load && load->getPointerOperand() == store->getPointerOperand()))
+    if (storeInput)
     {
       // Replace value in store with the input to the insertelement instruction
       llvm::StoreInst* _store =
@@ -1085,10 +1106,10 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
     llvm::LoadInst* load;
     bool v1SourceIsDest = false, v2SourceIsDest = false;
     if ((load = llvm::dyn_cast<llvm::LoadInst>(v1)) &&
-        load->getPointerOperand() == vectorPtr)
+        load->getPointerOperand() == vectorPtr && isLoadCurrent(load, store))
       v1SourceIsDest = true;
     if ((load = llvm::dyn_cast<llvm::LoadInst>(v2)) &&
-        load->getPointerOperand() == vectorPtr)
+        load->getPointerOperand() == vectorPtr && isLoadCurrent(load, store))
       v2SourceIsDest = true;
 
     // Get mask indices that don't correspond to the destination vector
-- 
2.43.0


From 152ce357d7596cc74b74943210d08bc4fd16b095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 24/82] fix: races between work-groups are found for every
 NDRange

The index of a work-group was wrong with three dimensions, and the race
detector derived the work-group of a work-item wrongly with more than one
dimension, a global offset or remainder work-groups, so that it missed races
between different groups and named the wrong work-items and groups.
---
 src/core/WorkGroup.cpp       |  4 +--
 src/core/WorkItem.cpp        |  8 ++++--
 src/plugins/RaceDetector.cpp | 55 +++++++++++++++++-------------------
 3 files changed, 34 insertions(+), 33 deletions(-)

diff --git a/src/core/WorkGroup.cpp b/src/core/WorkGroup.cpp
index 7f54994..2c97b18 100644
--- a/src/core/WorkGroup.cpp
+++ b/src/core/WorkGroup.cpp
@@ -36,8 +36,8 @@ WorkGroup::WorkGroup(const KernelInvocation* kernelInvocation, Size3 wgid,
 
   m_groupIndex =
     (m_groupID.x +
-     (m_groupID.y + m_groupID.z * (kernelInvocation->getNumGroups().y) *
-                      kernelInvocation->getNumGroups().x));
+     (m_groupID.y + m_groupID.z * kernelInvocation->getNumGroups().y) *
+       kernelInvocation->getNumGroups().x);
 
   // Allocate local memory
   m_localMemory =
diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 6261b58..e4f99bb 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -60,9 +60,13 @@ WorkItem::WorkItem(const KernelInvocation* kernelInvocation,
   m_globalID.y = lid.y + groupID.y * groupSize.y + globalOffset.y;
   m_globalID.z = lid.z + groupID.z * groupSize.z + globalOffset.z;
 
+  // Position in the NDRange, not counting the global offset
   Size3 globalSize = kernelInvocation->getGlobalSize();
-  m_globalIndex = (m_globalID.x +
-                   (m_globalID.y + m_globalID.z * globalSize.y) * globalSize.x);
+  m_globalIndex =
+    (m_globalID.x - globalOffset.x) +
+    ((m_globalID.y - globalOffset.y) +
+     (m_globalID.z - globalOffset.z) * globalSize.y) *
+      globalSize.x;
 
   const Kernel* kernel = kernelInvocation->getKernel();
 
diff --git a/src/plugins/RaceDetector.cpp b/src/plugins/RaceDetector.cpp
index 02598f6..5fb7054 100644
--- a/src/plugins/RaceDetector.cpp
+++ b/src/plugins/RaceDetector.cpp
@@ -238,8 +238,12 @@ size_t RaceDetector::getAccessWorkGroup(const MemoryAccess& access) const
 {
   if (access.isWorkItem())
   {
-    const Size3& wgsize = m_kernelInvocation->getLocalSize();
-    return access.getEntity() / (wgsize.x * wgsize.y * wgsize.z);
+    Size3 item(access.getEntity(), m_kernelInvocation->getGlobalSize());
+    Size3 wgsize = m_kernelInvocation->getLocalSize();
+    Size3 numGroups = m_kernelInvocation->getNumGroups();
+    return (item.x / wgsize.x) +
+           ((item.y / wgsize.y) + (item.z / wgsize.z) * numGroups.y) *
+             numGroups.x;
   }
   else
     return access.getEntity();
@@ -292,6 +296,24 @@ void RaceDetector::insertRace(RaceList& races, const Race& race) const
 
 void RaceDetector::logRace(const Race& race) const
 {
+  auto logEntity = [this](Context::Message& msg, const MemoryAccess& access) {
+    if (access.isWorkItem())
+    {
+      Size3 wgsize = m_kernelInvocation->getLocalSize();
+      Size3 offset = m_kernelInvocation->getGlobalOffset();
+      Size3 item(access.getEntity(), m_kernelInvocation->getGlobalSize());
+      Size3 global(item.x + offset.x, item.y + offset.y, item.z + offset.z);
+      Size3 local(item.x % wgsize.x, item.y % wgsize.y, item.z % wgsize.z);
+      Size3 group(item.x / wgsize.x, item.y / wgsize.y, item.z / wgsize.z);
+      msg << "Global" << global << " Local" << local << " Group" << group;
+    }
+    else
+    {
+      msg << "Group"
+          << Size3(access.getEntity(), m_kernelInvocation->getNumGroups());
+    }
+  };
+
   const char* raceType;
   if (race.a.isLoad() || race.b.isLoad())
     raceType = "Read-write";
@@ -305,36 +327,11 @@ void RaceDetector::logRace(const Race& race) const
       << endl
       << "First entity:  ";
 
-  if (race.a.isWorkItem())
-  {
-    Size3 wgsize = m_kernelInvocation->getLocalSize();
-    Size3 global(race.a.getEntity(), m_kernelInvocation->getGlobalSize());
-    Size3 local(global.x % wgsize.x, global.y % wgsize.y, global.z % wgsize.z);
-    Size3 group(global.x / wgsize.x, global.y / wgsize.y, global.z / wgsize.z);
-    msg << "Global" << global << " Local" << local << " Group" << group;
-  }
-  else
-  {
-    msg << "Group"
-        << Size3(race.a.getEntity(), m_kernelInvocation->getLocalSize());
-  }
-
+  logEntity(msg, race.a);
   msg << endl << race.a.getInstruction() << endl << endl << "Second entity: ";
 
   // Show details of other entity involved in race
-  if (race.b.isWorkItem())
-  {
-    Size3 wgsize = m_kernelInvocation->getLocalSize();
-    Size3 global(race.b.getEntity(), m_kernelInvocation->getGlobalSize());
-    Size3 local(global.x % wgsize.x, global.y % wgsize.y, global.z % wgsize.z);
-    Size3 group(global.x / wgsize.x, global.y / wgsize.y, global.z / wgsize.z);
-    msg << "Global" << global << " Local" << local << " Group" << group;
-  }
-  else
-  {
-    msg << "Group"
-        << Size3(race.b.getEntity(), m_kernelInvocation->getLocalSize());
-  }
+  logEntity(msg, race.b);
   msg << endl << race.b.getInstruction() << endl;
   msg.send();
 }
-- 
2.43.0


From e77302898f867091e91048a7e4407ffcd04dec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:42 +0000
Subject: [PATCH 25/82] fix: a work-item storing different values to a byte
 races with uniform writes

Only the first value a work-item or work-group stored was compared with the
values others stored, so that a race of a later one was missed.
---
 src/plugins/RaceDetector.cpp | 26 +++++++++++++++++++++-----
 src/plugins/RaceDetector.h   |  7 ++++++-
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/plugins/RaceDetector.cpp b/src/plugins/RaceDetector.cpp
index 5fb7054..bcc54fd 100644
--- a/src/plugins/RaceDetector.cpp
+++ b/src/plugins/RaceDetector.cpp
@@ -227,7 +227,8 @@ bool RaceDetector::check(const MemoryAccess& a, const MemoryAccess& b) const
       return true;
 
     // Write-write race if not uniform
-    if (!m_allowUniformWrites || (a.getStoreData() != b.getStoreData()))
+    if (!m_allowUniformWrites || a.isMixed() || b.isMixed() ||
+        (a.getStoreData() != b.getStoreData()))
       return true;
   }
 
@@ -249,8 +250,8 @@ size_t RaceDetector::getAccessWorkGroup(const MemoryAccess& access) const
     return access.getEntity();
 }
 
-void RaceDetector::insert(AccessRecord& record,
-                          const MemoryAccess& access) const
+void RaceDetector::insert(AccessRecord& record, const MemoryAccess& access,
+                          bool sameGroup) const
 {
   if (access.isLoad())
   {
@@ -261,6 +262,11 @@ void RaceDetector::insert(AccessRecord& record,
   {
     if (!record.store.isSet() || record.store.isAtomic())
       record.store = access;
+    else if (!access.isAtomic() &&
+             (sameGroup || access.getEntity() == record.store.getEntity()) &&
+             (access.isMixed() ||
+              access.getStoreData() != record.store.getStoreData()))
+      record.store.setMixed();
   }
 }
 
@@ -406,13 +412,13 @@ void RaceDetector::syncWorkItems(const Memory* memory, WorkGroupState& state,
       {
         insert(b, a.load);
         if (memory->getAddressSpace() == AddrSpaceGlobal)
-          insert(state.wgGlobal[address], a.load);
+          insert(state.wgGlobal[address], a.load, true);
       }
       if (a.store.isSet())
       {
         insert(b, a.store);
         if (memory->getAddressSpace() == AddrSpaceGlobal)
-          insert(state.wgGlobal[address], a.store);
+          insert(state.wgGlobal[address], a.store, true);
       }
     }
 
@@ -469,6 +475,16 @@ bool RaceDetector::MemoryAccess::isAtomic() const
   return this->info & (1 << ATOMIC_BIT);
 }
 
+bool RaceDetector::MemoryAccess::isMixed() const
+{
+  return this->info & (1 << MIXED_BIT);
+}
+
+void RaceDetector::MemoryAccess::setMixed()
+{
+  this->info |= 1 << MIXED_BIT;
+}
+
 bool RaceDetector::MemoryAccess::isLoad() const
 {
   return !isStore();
diff --git a/src/plugins/RaceDetector.h b/src/plugins/RaceDetector.h
index e352c6c..f68acfb 100644
--- a/src/plugins/RaceDetector.h
+++ b/src/plugins/RaceDetector.h
@@ -56,6 +56,8 @@ private:
     static const unsigned STORE_BIT = 1;
     static const unsigned ATOMIC_BIT = 2;
     static const unsigned WG_BIT = 3;
+    // Set if the entity (or its group) stored different values
+    static const unsigned MIXED_BIT = 4;
     uint8_t storeData;
 
   public:
@@ -64,6 +66,7 @@ private:
     bool isSet() const;
 
     bool isAtomic() const;
+    bool isMixed() const;
     bool isLoad() const;
     bool isStore() const;
     bool isWorkGroup() const;
@@ -74,6 +77,7 @@ private:
 
     uint8_t getStoreData() const;
     void setStoreData(uint8_t);
+    void setMixed();
 
     MemoryAccess();
     MemoryAccess(const WorkGroup* workGroup, const WorkItem* workItem,
@@ -125,7 +129,8 @@ private:
   size_t getAccessWorkGroup(const MemoryAccess& access) const;
 
   bool check(const MemoryAccess& a, const MemoryAccess& b) const;
-  void insert(AccessRecord& record, const MemoryAccess& access) const;
+  void insert(AccessRecord& record, const MemoryAccess& access,
+              bool sameGroup = false) const;
   void insertKernelRace(const Race& race);
   void insertRace(RaceList& races, const Race& race) const;
   void logRace(const Race& race) const;
-- 
2.43.0


From 407e7373d942d354766ab89a42e75d8de8fa0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 26/82] fix: add_sat and sub_sat of long saturate for every
 operand

---
 src/core/WorkItemBuiltins.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 49b4285..8729d67 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -1903,10 +1903,11 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        if ((SARGV(0, i) > 0) == (SARGV(1, i) > 0) &&
-            (SARGV(0, i) > 0) != (sresult > 0))
+        sresult = (int64_t)uresult;
+        if ((SARGV(0, i) < 0) == (SARGV(1, i) < 0) &&
+            (SARGV(0, i) < 0) != (sresult < 0))
         {
-          sresult = (SARGV(0, i) > 0) ? INT64_MAX : INT64_MIN;
+          sresult = (SARGV(0, i) < 0) ? INT64_MIN : INT64_MAX;
         }
         result.setSInt(sresult, i);
         break;
@@ -2259,10 +2260,11 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        if ((SARGV(0, i) > 0) != (SARGV(1, i) > 0) &&
-            (SARGV(0, i) > 0) != (sresult > 0))
+        sresult = (int64_t)uresult;
+        if ((SARGV(0, i) < 0) != (SARGV(1, i) < 0) &&
+            (SARGV(0, i) < 0) != (sresult < 0))
         {
-          sresult = (SARGV(0, i) > 0) ? INT64_MAX : INT64_MIN;
+          sresult = (SARGV(0, i) < 0) ? INT64_MIN : INT64_MAX;
         }
         result.setSInt(sresult, i);
         break;
-- 
2.43.0


From 3d77a861d0d9e769c4dc5daa26e0f824f42dbc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 27/82] fix: mad_sat of long saturates exactly when the result
 overflows

---
 src/core/WorkItemBuiltins.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 8729d67..ac42029 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2105,23 +2105,20 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        // Check for overflow in multiplication
-        if (_smul_hi_(SARGV(0, i), SARGV(1, i), 64))
-        {
-          sresult =
-            (SARGV(0, i) > 0) ^ (SARGV(1, i) > 0) ? INT64_MIN : INT64_MAX;
-        }
-        else
+      {
+        // 128-bit result of the multiplication and addition
+        int64_t hi = _smul_hi_(SARGV(0, i), SARGV(1, i), 64);
+        uint64_t lo = UARGV(0, i) * UARGV(1, i);
+        hi += (SARGV(2, i) < 0 ? -1 : 0) + (uresult < lo ? 1 : 0);
+
+        sresult = (int64_t)uresult;
+        if (hi != (sresult < 0 ? -1 : 0))
         {
-          // Check for overflow in addition
-          int64_t m = SARGV(0, i) * SARGV(1, i);
-          if ((m > 0) == (SARGV(2, i) > 0) && (m > 0) != (sresult > 0))
-          {
-            sresult = (m > 0) ? INT64_MAX : INT64_MIN;
-          }
+          sresult = hi < 0 ? INT64_MIN : INT64_MAX;
         }
         result.setSInt(sresult, i);
         break;
+      }
       default:
         FATAL_ERROR("Unsupported argument type: %c",
                     getOverloadArgType(overload));
-- 
2.43.0


From 202b1a95f31da323c756356a33a4733a48f13ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 28/82] fix: integer min, max and clamp with scalar limits

---
 src/core/WorkItemBuiltins.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index ac42029..1cc6787 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -55,6 +55,7 @@ class WorkItemBuiltins
 #define SARG(i) SARGV(i, 0)
 #define FARG(i) FARGV(i, 0)
 #define PARG(i) PARGV(i, 0)
+#define ARG_INDEX(i, v) (ARG(i)->getType()->isVectorTy() ? (v) : 0)
 #define ARG_VLEN(i)                                                            \
   llvm::cast<llvm::FixedVectorType>(ARG(i)->getType())->getNumElements()
 
@@ -101,7 +102,7 @@ class WorkItemBuiltins
   {
     for (unsigned i = 0; i < result.num; i++)
     {
-      result.setUInt(func(UARGV(0, i), UARGV(1, i)), i);
+      result.setUInt(func(UARGV(0, i), UARGV(1, ARG_INDEX(1, i))), i);
     }
   }
   static void u3arg(WorkItem* workItem, const llvm::CallInst* callInst,
@@ -111,7 +112,9 @@ class WorkItemBuiltins
   {
     for (unsigned i = 0; i < result.num; i++)
     {
-      result.setUInt(func(UARGV(0, i), UARGV(1, i), UARGV(2, i)), i);
+      result.setUInt(func(UARGV(0, i), UARGV(1, ARG_INDEX(1, i)),
+                          UARGV(2, ARG_INDEX(2, i))),
+                     i);
     }
   }
   static void s1arg(WorkItem* workItem, const llvm::CallInst* callInst,
@@ -129,7 +132,7 @@ class WorkItemBuiltins
   {
     for (unsigned i = 0; i < result.num; i++)
     {
-      result.setSInt(func(SARGV(0, i), SARGV(1, i)), i);
+      result.setSInt(func(SARGV(0, i), SARGV(1, ARG_INDEX(1, i))), i);
     }
   }
   static void s3arg(WorkItem* workItem, const llvm::CallInst* callInst,
@@ -139,7 +142,9 @@ class WorkItemBuiltins
   {
     for (unsigned i = 0; i < result.num; i++)
     {
-      result.setSInt(func(SARGV(0, i), SARGV(1, i), SARGV(2, i)), i);
+      result.setSInt(func(SARGV(0, i), SARGV(1, ARG_INDEX(1, i)),
+                          SARGV(2, ARG_INDEX(2, i))),
+                     i);
     }
   }
   static void rel1arg(WorkItem* workItem, const llvm::CallInst* callInst,
-- 
2.43.0


From 993c0318683701103c80d2149145cf0020a76e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 29/82] fix: bitselect of floating point values selects the
 bits of their own type

---
 src/core/WorkItemBuiltins.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 1cc6787..e538ca3 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2812,23 +2812,12 @@ class WorkItemBuiltins
     return ((a & ~c) | (b & c));
   }
 
-  static double _fbitselect_(double a, double b, double c)
-  {
-    uint64_t _a = *(uint64_t*)&a;
-    uint64_t _b = *(uint64_t*)&b;
-    uint64_t _c = *(uint64_t*)&c;
-    uint64_t _r = _ibitselect_(_a, _b, _c);
-    return *(double*)&_r;
-  }
-
   DEFINE_BUILTIN(bitselect)
   {
     switch (getOverloadArgType(overload))
     {
     case 'f':
     case 'd':
-      f3arg(workItem, callInst, fnName, overload, result, _fbitselect_);
-      break;
     case 'h':
     case 't':
     case 'j':
-- 
2.43.0


From 4e96d99fd46b74a722565d8988f11cb3d2036863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 30/82] fix: isnormal of denormal float values

---
 src/core/WorkItemBuiltins.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index e538ca3..d2edf66 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2756,6 +2756,10 @@ class WorkItemBuiltins
   {
     return isnormal(x);
   }
+  static int64_t _isnormf_(double x)
+  {
+    return isnormal((float)x);
+  }
   static int64_t _isord_(double x, double y)
   {
     return !isunordered(x, y);
@@ -2834,6 +2838,13 @@ class WorkItemBuiltins
     }
   }
 
+  DEFINE_BUILTIN(isnormal_builtin)
+  {
+    // Whether a value is normal depends on its type
+    rel1arg(workItem, callInst, fnName, overload, result,
+            getOverloadArgType(overload) == 'f' ? _isnormf_ : _isnorm_);
+  }
+
   DEFINE_BUILTIN(select_builtin)
   {
     char type = getOverloadArgType(overload);
@@ -3818,7 +3829,7 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
   ADD_BUILTIN("isfinite", rel1arg, _isfin_);
   ADD_BUILTIN("isinf", rel1arg, _isinf_);
   ADD_BUILTIN("isnan", rel1arg, _isnan_);
-  ADD_BUILTIN("isnormal", rel1arg, _isnorm_);
+  ADD_BUILTIN("isnormal", isnormal_builtin, NULL);
   ADD_BUILTIN("isordered", rel2arg, _isord_);
   ADD_BUILTIN("isunordered", rel2arg, _isuord_);
   ADD_BUILTIN("select", select_builtin, NULL);
-- 
2.43.0


From d961d995f2bcf0f1aea2f8f0a8ef15523c6d7896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 31/82] fix: storing part of a vector addresses the vector's
 own elements

The scalar stores that replace a partial vector store were addressed by
appending an index to the GEP that yields the vector's address, which only
works if that GEP yields a vector of this type. LLVM drops leading zero
indices and addresses bytes, so elements were stored at wrong addresses.
---
 src/core/Program.cpp | 47 +++++++-------------------------------------
 1 file changed, 7 insertions(+), 40 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index ac79d36..84b3b9a 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -978,46 +978,13 @@ llvm::GetElementPtrInst* createScalarGEP(llvm::Value* ptr, llvm::Value* index,
                                          llvm::StoreInst* store,
                                          llvm::IntegerType* indexType)
 {
-  // Create GEP for scalar value
-  llvm::GetElementPtrInst* scalarPtr = NULL;
-  if (auto gep = llvm::dyn_cast<llvm::GetElementPtrInst>(ptr))
-  {
-    // Create GEP from existing GEP
-    std::vector<llvm::Value*> indices;
-    for (auto idx = gep->idx_begin(); idx != gep->idx_end(); idx++)
-    {
-      indices.push_back(*idx);
-    }
-
-    auto* gepResultType = gep->getResultElementType();
-    if (gepResultType->isIntegerTy(8))
-    {
-      auto byteOffset =
-        getTypeSize(store->getValueOperand()->getType()->getScalarType());
-      auto* mul = llvm::BinaryOperator::CreateMul(
-        index,
-        llvm::Constant::getIntegerValue(
-          index->getType(),
-          llvm::APInt(index->getType()->getIntegerBitWidth(), byteOffset)));
-      mul->insertBefore(store->getIterator());
-      indices.push_back(mul);
-    }
-    else
-    {
-      indices.push_back(index);
-    }
-    scalarPtr = llvm::GetElementPtrInst::Create(
-      gep->getSourceElementType(), gep->getPointerOperand(), indices);
-  }
-  else
-  {
-    // Create GEP from non-GEP pointer
-    std::vector<llvm::Value*> indices;
-    indices.push_back(llvm::ConstantInt::getSigned(indexType, 0));
-    indices.push_back(index);
-    scalarPtr = llvm::GetElementPtrInst::Create(
-      store->getValueOperand()->getType(), ptr, indices);
-  }
+  // Create GEP for scalar value, directly from the pointer that the vector is
+  // stored through (which may itself be a GEP into some other type)
+  std::vector<llvm::Value*> indices;
+  indices.push_back(llvm::ConstantInt::getSigned(indexType, 0));
+  indices.push_back(index);
+  llvm::GetElementPtrInst* scalarPtr = llvm::GetElementPtrInst::Create(
+    store->getValueOperand()->getType(), ptr, indices);
   scalarPtr->setDebugLoc(store->getDebugLoc());
   scalarPtr->insertBefore(store->getIterator());
 
-- 
2.43.0


From 86c086a31633245a70c50543db627fd2d9482c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 32/82] fix: support the integer intrinsics that LLVM's
 optimisations introduce

Kernels whose code InstCombine recognises as a rotation, absolute value,
saturating operation, overflow check, three-way comparison or bit reversal
could not be created. Byte swaps of vectors only swapped the first element.
---
 src/core/WorkItemBuiltins.cpp | 199 +++++++++++++++++++++++++++++++++-
 1 file changed, 194 insertions(+), 5 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index d2edf66..659ffb7 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3525,13 +3525,16 @@ class WorkItemBuiltins
 
   DEFINE_BUILTIN(llvm_bswap)
   {
-    uint64_t r = 0;
-    uint64_t value = UARG(0);
-    for (unsigned i = 0; i < result.size; i++)
+    for (unsigned v = 0; v < result.num; v++)
     {
-      r |= ((value >> (i * 8)) & 0xFF) << ((result.size - i - 1) * 8);
+      uint64_t r = 0;
+      uint64_t value = UARGV(0, v);
+      for (unsigned i = 0; i < result.size; i++)
+      {
+        r |= ((value >> (i * 8)) & 0xFF) << ((result.size - i - 1) * 8);
+      }
+      result.setUInt(r, v);
     }
-    result.setUInt(r);
   }
 
   DEFINE_BUILTIN(llvm_dbg_declare)
@@ -3570,6 +3573,173 @@ class WorkItemBuiltins
     // TODO: Implement?
   }
 
+  // Get element v of integer argument i, sign-extended from the width of its
+  // type
+  static int64_t getSignedArg(WorkItem* workItem,
+                              const llvm::CallInst* callInst, unsigned i,
+                              unsigned v)
+  {
+    unsigned shift = 64 - ARG(i)->getType()->getScalarSizeInBits();
+    return (int64_t)(UARGV(i, v) << shift) >> shift;
+  }
+
+  DEFINE_BUILTIN(llvm_abs)
+  {
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      int64_t x = getSignedArg(workItem, callInst, 0, i);
+      result.setUInt(x < 0 ? 0 - (uint64_t)x : x, i);
+    }
+  }
+
+  DEFINE_BUILTIN(llvm_bitreverse)
+  {
+    unsigned bits = ARG(0)->getType()->getScalarSizeInBits();
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      uint64_t r = 0;
+      uint64_t x = UARGV(0, i);
+      for (unsigned b = 0; b < bits; b++)
+      {
+        r = (r << 1) | ((x >> b) & 1);
+      }
+      result.setUInt(r, i);
+    }
+  }
+
+  // llvm.scmp and llvm.ucmp
+  DEFINE_BUILTIN(llvm_cmp)
+  {
+    bool isSigned = fnName[5] == 's';
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      uint64_t ux = UARGV(0, i);
+      uint64_t uy = UARGV(1, i);
+      int64_t sx = getSignedArg(workItem, callInst, 0, i);
+      int64_t sy = getSignedArg(workItem, callInst, 1, i);
+      bool less = isSigned ? sx < sy : ux < uy;
+      result.setSInt(less ? -1 : ux != uy, i);
+    }
+  }
+
+  // llvm.ctlz, llvm.cttz and llvm.ctpop
+  DEFINE_BUILTIN(llvm_count)
+  {
+    unsigned bits = ARG(0)->getType()->getScalarSizeInBits();
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      uint64_t x = UARGV(0, i);
+      unsigned leading = bits, trailing = bits, ones = 0;
+      for (unsigned b = 0; b < bits; b++)
+      {
+        if ((x >> b) & 1)
+        {
+          leading = bits - 1 - b;
+          if (!ones++)
+            trailing = b;
+        }
+      }
+      result.setUInt(fnName.compare(0, 9, "llvm.ctlz") == 0   ? leading
+                     : fnName.compare(0, 9, "llvm.cttz") == 0 ? trailing
+                                                              : ones,
+                     i);
+    }
+  }
+
+  // llvm.fshl and llvm.fshr
+  DEFINE_BUILTIN(llvm_funnel_shift)
+  {
+    bool left = fnName.compare(0, 9, "llvm.fshl") == 0;
+    unsigned bits = ARG(0)->getType()->getScalarSizeInBits();
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      uint64_t high = UARGV(0, i);
+      uint64_t low = UARGV(1, i);
+      unsigned shift = UARGV(2, i) % bits;
+      if (!left)
+        shift = bits - shift;
+      if (shift == 0)
+        result.setUInt(high, i);
+      else if (shift == bits)
+        result.setUInt(low, i);
+      else
+        result.setUInt((high << shift) | (low >> (bits - shift)), i);
+    }
+  }
+
+  // Add, subtract or multiply integers of the given width, returning whether
+  // the result overflows and the limit that it exceeds
+  static bool llvm_arith_overflow(const string& fnName, uint64_t x, uint64_t y,
+                                  unsigned bits, uint64_t& result,
+                                  uint64_t& limit)
+  {
+    bool isSigned = fnName[5] == 's';
+    string op = fnName.substr(6, 3);
+    bool negative = false, overflow = false;
+    uint64_t ux = x, uy = y;
+    uint64_t max = UINT64_MAX >> (64 - bits);
+    uint64_t signbit = 1ULL << (bits - 1);
+
+    result = (op == "add" ? x + y : op == "sub" ? x - y : x * y) & max;
+    if (isSigned)
+    {
+      bool sx = x & signbit, sy = y & signbit, sr = result & signbit;
+      if (op == "mul")
+      {
+        // Multiply the magnitudes of the operands
+        ux = sx ? (0 - x) & max : x;
+        uy = sy ? (0 - y) & max : y;
+        negative = sx != sy;
+        overflow = ux && uy > (negative ? signbit : signbit - 1) / ux;
+      }
+      else
+      {
+        negative = sx;
+        overflow = (op == "add" ? sx == sy : sx != sy) && sr != sx;
+      }
+      limit = negative ? signbit : signbit - 1;
+    }
+    else
+    {
+      overflow = op == "add"   ? result < x
+                 : op == "sub" ? x < y
+                               : x && y > max / x;
+      limit = op == "sub" ? 0 : max;
+    }
+    return overflow;
+  }
+
+  // llvm.[su]add.sat and llvm.[su]sub.sat
+  DEFINE_BUILTIN(llvm_sat)
+  {
+    unsigned bits = ARG(0)->getType()->getScalarSizeInBits();
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      uint64_t r, limit;
+      bool overflow = llvm_arith_overflow(fnName, UARGV(0, i), UARGV(1, i),
+                                          bits, r, limit);
+      result.setUInt(overflow ? limit : r, i);
+    }
+  }
+
+  // llvm.[su]{add,sub,mul}.with.overflow
+  DEFINE_BUILTIN(llvm_with_overflow)
+  {
+    const llvm::Type* type = ARG(0)->getType();
+    unsigned bits = type->getScalarSizeInBits();
+    if (type->isVectorTy())
+    {
+      FATAL_ERROR("Unsupported vector arithmetic with overflow");
+    }
+    uint64_t r, limit;
+    bool overflow =
+      llvm_arith_overflow(fnName, UARG(0), UARG(1), bits, r, limit);
+    memset(result.data, 0, result.size);
+    memcpy(result.data, &r, getTypeSize(type));
+    result.data[getStructMemberOffset(
+      (const llvm::StructType*)callInst->getType(), 1)] = overflow;
+  }
+
   DEFINE_BUILTIN(llvm_memcpy)
   {
     const llvm::MemCpyInst* memcpyInst = (const llvm::MemCpyInst*)callInst;
@@ -3873,8 +4043,13 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
   ADD_BUILTIN("printf", printf_builtin, NULL);
 
   // LLVM Intrinsics
+  ADD_PREFIX_BUILTIN("llvm.abs.", llvm_abs, NULL);
   ADD_BUILTIN("llvm.assume", llvm_assume, NULL);
+  ADD_PREFIX_BUILTIN("llvm.bitreverse.", llvm_bitreverse, NULL);
   ADD_PREFIX_BUILTIN("llvm.bswap.", llvm_bswap, NULL);
+  ADD_PREFIX_BUILTIN("llvm.ctlz.", llvm_count, NULL);
+  ADD_PREFIX_BUILTIN("llvm.ctpop.", llvm_count, NULL);
+  ADD_PREFIX_BUILTIN("llvm.cttz.", llvm_count, NULL);
   ADD_BUILTIN("llvm.dbg.declare", llvm_dbg_declare, NULL);
   ADD_BUILTIN("llvm.dbg.value", llvm_dbg_value, NULL);
   ADD_PREFIX_BUILTIN("llvm.fabs.f", f1arg, F1ARG(fabs));
@@ -3890,7 +4065,21 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
   ADD_PREFIX_BUILTIN("llvm.smin", s2arg, _min_<int64_t>);
   ADD_PREFIX_BUILTIN("llvm.umax", u2arg, _max_<uint64_t>);
   ADD_PREFIX_BUILTIN("llvm.umin", u2arg, _min_<uint64_t>);
+  ADD_PREFIX_BUILTIN("llvm.fshl.", llvm_funnel_shift, NULL);
+  ADD_PREFIX_BUILTIN("llvm.fshr.", llvm_funnel_shift, NULL);
+  ADD_PREFIX_BUILTIN("llvm.sadd.sat.", llvm_sat, NULL);
+  ADD_PREFIX_BUILTIN("llvm.sadd.with.overflow.", llvm_with_overflow, NULL);
+  ADD_PREFIX_BUILTIN("llvm.scmp.", llvm_cmp, NULL);
+  ADD_PREFIX_BUILTIN("llvm.smul.with.overflow.", llvm_with_overflow, NULL);
+  ADD_PREFIX_BUILTIN("llvm.ssub.sat.", llvm_sat, NULL);
+  ADD_PREFIX_BUILTIN("llvm.ssub.with.overflow.", llvm_with_overflow, NULL);
   ADD_BUILTIN("llvm.trap", llvm_trap, NULL);
+  ADD_PREFIX_BUILTIN("llvm.uadd.sat.", llvm_sat, NULL);
+  ADD_PREFIX_BUILTIN("llvm.uadd.with.overflow.", llvm_with_overflow, NULL);
+  ADD_PREFIX_BUILTIN("llvm.ucmp.", llvm_cmp, NULL);
+  ADD_PREFIX_BUILTIN("llvm.umul.with.overflow.", llvm_with_overflow, NULL);
+  ADD_PREFIX_BUILTIN("llvm.usub.sat.", llvm_sat, NULL);
+  ADD_PREFIX_BUILTIN("llvm.usub.with.overflow.", llvm_with_overflow, NULL);
 
   return builtins;
 }
-- 
2.43.0


From 9049c89ace7109abeea86ee09433d4b21b0815db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 33/82] fix: integers of irregular width keep their value

LLVM's optimisations introduce integers of any width. Truncation to such a
type left bits of the wider value in place and signed operations took the
wrong sign bit; vectors of booleans mixed 1 and -1 for true.
---
 src/core/WorkItem.cpp | 61 ++++++++++++++++++++++++++++++-------------
 src/core/common.cpp   | 15 ++++++++---
 2 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index e4f99bb..5eb8c8f 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -319,6 +319,18 @@ void WorkItem::execute(const llvm::Instruction* instruction)
   // Execute instruction
   dispatch(instruction, result);
 
+  // Clear the bits of an integer result that are not part of its type
+  const llvm::Type* scalarType = instruction->getType()->getScalarType();
+  if (scalarType->isIntegerTy() && scalarType->getIntegerBitWidth() % 8 &&
+      result.size <= 8)
+  {
+    uint64_t mask = (1ULL << scalarType->getIntegerBitWidth()) - 1;
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      result.setUInt(result.getUInt(i) & mask, i);
+    }
+  }
+
   // Store result
   if (result.size)
   {
@@ -769,6 +781,24 @@ WorkItem::State WorkItem::step()
 //// Instruction execution ////
 ///////////////////////////////
 
+namespace
+{
+// Get the signed value of an integer operand, which may be of a type that does
+// not use all of the bits that it is stored in
+int64_t getSigned(const llvm::Value* operand, const TypedValue& value,
+                  unsigned index)
+{
+  int64_t result = value.getSInt(index);
+  unsigned bits = operand->getType()->getScalarSizeInBits();
+  if (bits && bits < value.size * 8)
+  {
+    unsigned shift = 64 - bits;
+    result = (int64_t)((uint64_t)result << shift) >> shift;
+  }
+  return result;
+}
+} // namespace
+
 #define INSTRUCTION(name)                                                      \
   void WorkItem::name(const llvm::Instruction* instruction, TypedValue& result)
 
@@ -818,7 +848,9 @@ INSTRUCTION(ashr)
     1;
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setUInt(opA.getSInt(i) >> (opB.getUInt(i) & shiftMask), i);
+    result.setUInt(getSigned(instruction->getOperand(0), opA, i) >>
+                     (opB.getUInt(i) & shiftMask),
+                   i);
   }
 }
 
@@ -992,7 +1024,6 @@ INSTRUCTION(fcmp)
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
 
-  uint64_t t = result.num > 1 ? -1 : 1;
   for (unsigned i = 0; i < result.num; i++)
   {
     double a = opA.getFloat(i);
@@ -1043,7 +1074,7 @@ INSTRUCTION(fcmp)
       r = !llvm::CmpInst::isOrdered(pred);
     }
 
-    result.setUInt(r ? t : 0, i);
+    result.setUInt(r, i);
   }
 }
 
@@ -1159,14 +1190,13 @@ INSTRUCTION(icmp)
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
 
-  uint64_t t = result.num > 1 ? -1 : 1;
   for (unsigned i = 0; i < result.num; i++)
   {
     // Load operands
     uint64_t ua = opA.getUInt(i);
     uint64_t ub = opB.getUInt(i);
-    int64_t sa = opA.getSInt(i);
-    int64_t sb = opB.getSInt(i);
+    int64_t sa = getSigned(instruction->getOperand(0), opA, i);
+    int64_t sb = getSigned(instruction->getOperand(1), opB, i);
 
     uint64_t r;
     switch (pred)
@@ -1205,7 +1235,7 @@ INSTRUCTION(icmp)
       FATAL_ERROR("Unsupported ICmp predicate: %d", pred);
     }
 
-    result.setUInt(r ? t : 0, i);
+    result.setUInt(r, i);
   }
 }
 
@@ -1378,8 +1408,8 @@ INSTRUCTION(sdiv)
   TypedValue opB = getOperand(instruction->getOperand(1));
   for (unsigned i = 0; i < result.num; i++)
   {
-    int64_t a = opA.getSInt(i);
-    int64_t b = opB.getSInt(i);
+    int64_t a = getSigned(instruction->getOperand(0), opA, i);
+    int64_t b = getSigned(instruction->getOperand(1), opB, i);
     int64_t r = 0;
     if (b && !(a == INT64_MIN && b == -1))
     {
@@ -1411,12 +1441,7 @@ INSTRUCTION(sext)
   TypedValue value = getOperand(operand);
   for (unsigned i = 0; i < result.num; i++)
   {
-    int64_t val = value.getSInt(i);
-    if (operand->getType()->getPrimitiveSizeInBits() == 1)
-    {
-      val = val ? -1 : 0;
-    }
-    result.setSInt(val, i);
+    result.setSInt(getSigned(operand, value, i), i);
   }
 }
 
@@ -1470,7 +1495,7 @@ INSTRUCTION(sitofp)
   TypedValue op = getOperand(instruction->getOperand(0));
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setFloat(op.getSInt(i), i);
+    result.setFloat(getSigned(instruction->getOperand(0), op, i), i);
   }
 }
 
@@ -1480,8 +1505,8 @@ INSTRUCTION(srem)
   TypedValue opB = getOperand(instruction->getOperand(1));
   for (unsigned i = 0; i < result.num; i++)
   {
-    int64_t a = opA.getSInt(i);
-    int64_t b = opB.getSInt(i);
+    int64_t a = getSigned(instruction->getOperand(0), opA, i);
+    int64_t b = getSigned(instruction->getOperand(1), opB, i);
     int64_t r = 0;
     if (b && !(a == INT64_MIN && b == -1))
     {
diff --git a/src/core/common.cpp b/src/core/common.cpp
index 8eba1e3..5c89dcf 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -639,7 +639,14 @@ unsigned getTypeSize(const llvm::Type* type)
   {
     // Round up for types that have a bit size not multiple of 8
     // like "bool".
-    return (type->getScalarSizeInBits() + 7) >> 3;
+    unsigned size = (type->getScalarSizeInBits() + 7) >> 3;
+    if (type->isIntegerTy() && type->getScalarSizeInBits() % 8)
+    {
+      // Integers of irregular width are stored as the next larger regular one
+      while (size & (size - 1))
+        size++;
+    }
+    return size;
   }
 }
 
@@ -724,10 +731,10 @@ pair<unsigned, unsigned> getValueSize(const llvm::Value* value)
     elemSize = sizeof(size_t);
   }
 
-  // Special case for boolean results
-  if (bits == 1)
+  // Special case for integers of irregular width
+  if (type->getScalarType()->isIntegerTy())
   {
-    elemSize = sizeof(bool);
+    elemSize = getTypeSize(type->getScalarType());
   }
 
   return pair<unsigned, unsigned>(elemSize, numElements);
-- 
2.43.0


From 75d5f883566296b0e7f44b8be6b289e3db3a084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 34/82] fix: evaluate constant expressions within constant
 vectors and aggregates

---
 src/core/common.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/common.cpp b/src/core/common.cpp
index 5c89dcf..09258df 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -15,6 +15,8 @@
 #include <sys/time.h>
 #endif
 
+#include "llvm/Analysis/ConstantFolding.h"
+#include "llvm/IR/DataLayout.h"
 #include "llvm/IR/Instructions.h"
 #include "llvm/IR/Metadata.h"
 #include "llvm/IR/Operator.h"
@@ -341,6 +343,17 @@ void getConstantData(unsigned char* data, const llvm::Constant* constant)
   const llvm::Type* type = constant->getType();
   unsigned size = getTypeSize(type);
 
+  // Elements of aggregates may be expressions that are yet to be evaluated
+  if (llvm::isa<llvm::ConstantExpr>(constant))
+  {
+    static const llvm::DataLayout layout("e");
+    constant = llvm::ConstantFoldConstant(constant, layout);
+    if (llvm::isa<llvm::ConstantExpr>(constant))
+    {
+      FATAL_ERROR("Unsupported constant expression");
+    }
+  }
+
   if (llvm::isa<llvm::UndefValue>(constant))
   {
     memset(data, 0, size);
-- 
2.43.0


From 836731d0c9eeb8d9915e5f47c8847e796de99baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 35/82] fix: bitcasts of boolean vectors pack one bit per
 element

---
 src/core/WorkItem.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 5eb8c8f..e1d5210 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -856,7 +856,22 @@ INSTRUCTION(ashr)
 
 INSTRUCTION(bitcast)
 {
-  TypedValue operand = getOperand(instruction->getOperand(0));
+  const llvm::Value* value = instruction->getOperand(0);
+  TypedValue operand = getOperand(value);
+  unsigned srcBits = value->getType()->getScalarSizeInBits();
+  unsigned dstBits = instruction->getType()->getScalarSizeInBits();
+  if (srcBits % 8 || dstBits % 8)
+  {
+    // Elements that do not fill their storage (e.g. booleans) are packed
+    memset(result.data, 0, result.size * result.num);
+    for (unsigned i = 0; i < dstBits * result.num; i++)
+    {
+      uint64_t bit = (operand.getUInt(i / srcBits) >> (i % srcBits)) & 1;
+      unsigned dst = i / dstBits;
+      result.setUInt(result.getUInt(dst) | (bit << (i % dstBits)), dst);
+    }
+    return;
+  }
   memcpy(result.data, operand.data, result.size * result.num);
 }
 
-- 
2.43.0


From f3958c0c714912a98c73f8cd0f81d8feb039f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:59 +0000
Subject: [PATCH 36/82] fix: integers of 3, 5, 6 or 7 bytes

LLVM's optimisations split structures into integers such as i48, which made
kernels abort.
---
 src/core/common.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/core/common.cpp b/src/core/common.cpp
index 09258df..fe1eac6 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -134,6 +134,15 @@ int64_t TypedValue::getSInt(unsigned index) const
     return ((int32_t*)data)[index];
   case 8:
     return ((int64_t*)data)[index];
+  case 3:
+  case 5:
+  case 6:
+  case 7:
+  {
+    int64_t result = 0;
+    memcpy((unsigned char*)&result + 8 - size, data + index * size, size);
+    return result >> (64 - 8 * size);
+  }
   default:
     FATAL_ERROR("Unsupported signed int size: %u bytes", size);
   }
@@ -151,6 +160,15 @@ uint64_t TypedValue::getUInt(unsigned index) const
     return ((uint32_t*)data)[index];
   case 8:
     return ((uint64_t*)data)[index];
+  case 3:
+  case 5:
+  case 6:
+  case 7:
+  {
+    uint64_t result = 0;
+    memcpy(&result, data + index * size, size);
+    return result;
+  }
   default:
     FATAL_ERROR("Unsupported unsigned int size: %u bytes", size);
   }
@@ -196,6 +214,12 @@ void TypedValue::setSInt(int64_t value, unsigned index)
   case 8:
     ((int64_t*)data)[index] = value;
     break;
+  case 3:
+  case 5:
+  case 6:
+  case 7:
+    memcpy(data + index * size, &value, size);
+    break;
   default:
     FATAL_ERROR("Unsupported signed int size: %u bytes", size);
   }
@@ -217,6 +241,12 @@ void TypedValue::setUInt(uint64_t value, unsigned index)
   case 8:
     ((uint64_t*)data)[index] = value;
     break;
+  case 3:
+  case 5:
+  case 6:
+  case 7:
+    memcpy(data + index * size, &value, size);
+    break;
   default:
     FATAL_ERROR("Unsupported unsigned int size: %u bytes", size);
   }
@@ -379,6 +409,12 @@ void getConstantData(unsigned char* data, const llvm::Constant* constant)
     case 8:
       *((uint64_t*)data) = ui;
       break;
+    case 3:
+    case 5:
+    case 6:
+    case 7:
+      memcpy(data, &ui, size);
+      break;
     default:
       FATAL_ERROR("Unsupported constant int size: %u bytes", size);
     }
-- 
2.43.0


From f31c1a5f8ca856571cb2bddde1135d170370c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:09 +0000
Subject: [PATCH 37/82] fix: vector integer arithmetic with overflow

LLVM's optimisations create these intrinsics for vectors from comparisons that
detect wrap-around; kernels using them were aborted.
---
 src/core/WorkItemBuiltins.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 659ffb7..b118a51 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3727,17 +3727,21 @@ class WorkItemBuiltins
   {
     const llvm::Type* type = ARG(0)->getType();
     unsigned bits = type->getScalarSizeInBits();
-    if (type->isVectorTy())
+    unsigned elemSize = getTypeSize(type->getScalarType());
+    unsigned flagsOffset = getStructMemberOffset(
+      (const llvm::StructType*)callInst->getType(), 1);
+
+    TypedValue x = workItem->getOperand(ARG(0));
+    TypedValue y = workItem->getOperand(ARG(1));
+    memset(result.data, 0, result.size);
+    for (unsigned i = 0; i < x.num; i++)
     {
-      FATAL_ERROR("Unsupported vector arithmetic with overflow");
+      uint64_t r, limit;
+      bool overflow = llvm_arith_overflow(fnName, x.getUInt(i), y.getUInt(i),
+                                          bits, r, limit);
+      memcpy(result.data + i * elemSize, &r, elemSize);
+      result.data[flagsOffset + i] = overflow;
     }
-    uint64_t r, limit;
-    bool overflow =
-      llvm_arith_overflow(fnName, UARG(0), UARG(1), bits, r, limit);
-    memset(result.data, 0, result.size);
-    memcpy(result.data, &r, getTypeSize(type));
-    result.data[getStructMemberOffset(
-      (const llvm::StructType*)callInst->getType(), 1)] = overflow;
   }
 
   DEFINE_BUILTIN(llvm_memcpy)
-- 
2.43.0


From b47b8c7b98432e672663578432ba9de0c7c181ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:55 +0000
Subject: [PATCH 38/82] fix: instruction counts of functions that only some
 work-groups call

---
 src/plugins/InstructionCounter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/plugins/InstructionCounter.cpp b/src/plugins/InstructionCounter.cpp
index df6157b..77d2c81 100644
--- a/src/plugins/InstructionCounter.cpp
+++ b/src/plugins/InstructionCounter.cpp
@@ -249,6 +249,10 @@ void InstructionCounter::workGroupComplete(const WorkGroup* workGroup)
       }
     }
 
+    // The merged opcode of a function may exceed that used by this group
+    if (opcode >= m_instructionCounts.size())
+      m_instructionCounts.resize(opcode + 1);
+
     m_instructionCounts[opcode] += m_state.instCounts->at(i);
   }
 
-- 
2.43.0


From 4ca16b7d8c2545662ce71eb21384c662689a3b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:26 +0000
Subject: [PATCH 39/82] fix: a context no longer overwrites what others have
 logged

---
 src/plugins/Logger.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/plugins/Logger.cpp b/src/plugins/Logger.cpp
index 3f33536..703df78 100644
--- a/src/plugins/Logger.cpp
+++ b/src/plugins/Logger.cpp
@@ -10,6 +10,7 @@
 
 #include <fstream>
 #include <mutex>
+#include <set>
 
 #include "Logger.h"
 
@@ -29,7 +30,13 @@ Logger::Logger(const Context* context) : Plugin(context)
   const char* logfile = getenv("OCLGRIND_LOG");
   if (logfile)
   {
-    m_log = new ofstream(logfile);
+    // Start a new log, but let any further contexts add to it
+    static set<string> logfiles;
+    lock_guard<mutex> lock(logMutex);
+    if (logfiles.insert(logfile).second)
+      ofstream truncate(logfile);
+
+    m_log = new ofstream(logfile, ios::app);
     if (!m_log->good())
     {
       cerr << "Oclgrind: Unable to open log file '" << logfile << "'" << endl;
-- 
2.43.0


From f3c2442810d20537b386fd778500212e63a6dfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:13 +0000
Subject: [PATCH 40/82] fix: uninitialized-value plugin crashed on shuffles
 with undefined elements

---
 src/plugins/Uninitialized.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 39de5fc..b5e6686 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1649,11 +1649,7 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     for (unsigned i = 0; i < newShadow.num; i++)
     {
       int index = shuffleInst->getMaskValue(i);
-#if LLVM_VERSION >= 210
       if (index == llvm::PoisonMaskElem)
-#else
-      if (index == llvm::Value::UndefValueVal)
-#endif
       {
         // Undef value are poisoned
         memcpy(newShadow.data + i * newShadow.size, pv.data, newShadow.size);
-- 
2.43.0


From c393d65713397bd03b898b1a848305e1a532875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:13 +0000
Subject: [PATCH 41/82] fix: uninitialized-value plugin aborted kernels that
 use other intrinsics

---
 src/plugins/Uninitialized.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index b5e6686..68ac959 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -924,8 +924,9 @@ void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
     break;
   }
   case llvm::Intrinsic::memcpy:
+  case llvm::Intrinsic::memmove:
   {
-    const llvm::MemCpyInst* memcpyInst = (const llvm::MemCpyInst*)I;
+    const llvm::MemTransferInst* memcpyInst = (const llvm::MemTransferInst*)I;
     const llvm::Value* dstOp = memcpyInst->getDest();
     const llvm::Value* srcOp = memcpyInst->getSource();
     size_t dst = workItem->getOperand(dstOp).getPointer();
@@ -1003,8 +1004,28 @@ void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
     // Do nothing
     break;
   default:
-    FATAL_ERROR("Unsupported intrinsic %s",
-                llvm::Intrinsic::getName(I->getIntrinsicID()).data());
+  {
+    // Result is uninitialized if any argument is
+    if (!I->getType()->isSized())
+    {
+      break;
+    }
+
+    bool clean = true;
+    for (unsigned i = 0; i < I->arg_size(); i++)
+    {
+      const llvm::Value* arg = I->getArgOperand(i);
+      if (arg->getType()->isSized() &&
+          !ShadowContext::isCleanValue(shadowContext.getValue(workItem, arg)))
+      {
+        clean = false;
+      }
+    }
+    shadowContext.getShadowWorkItem(workItem)->getValues()->setValue(
+      I, clean ? ShadowContext::getCleanValue(I)
+               : ShadowContext::getPoisonedValue(I));
+    break;
+  }
   }
 }
 
-- 
2.43.0


From 78a8467444aa2e3f8fe41fe0ca70cd55afc20ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:14 +0000
Subject: [PATCH 42/82] fix: uninitialized-value plugin and group copies of
 other types

---
 src/plugins/Uninitialized.cpp | 44 +++++++++++++++++++++++++++++------
 src/plugins/Uninitialized.h   |  4 ++--
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 68ac959..c085827 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -102,14 +102,14 @@ void Uninitialized::copyShadowMemory(unsigned dstAddrSpace, size_t dst,
                                      unsigned size, const WorkItem* workItem,
                                      const WorkGroup* workGroup, bool unchecked)
 {
-  copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, 1, 1, size,
+  copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, 1, 1, 1, size,
                           workItem, workGroup, unchecked);
 }
 
 void Uninitialized::copyShadowMemoryStrided(
   unsigned dstAddrSpace, size_t dst, unsigned srcAddrSpace, size_t src,
-  size_t num, size_t stride, unsigned size, const WorkItem* workItem,
-  const WorkGroup* workGroup, bool unchecked)
+  size_t num, size_t dstStride, size_t srcStride, unsigned size,
+  const WorkItem* workItem, const WorkGroup* workGroup, bool unchecked)
 {
   TypedValue v = {size, 1, new unsigned char[size]};
 
@@ -117,8 +117,8 @@ void Uninitialized::copyShadowMemoryStrided(
   {
     loadShadowMemory(srcAddrSpace, src, v, workItem, workGroup);
     storeShadowMemory(dstAddrSpace, dst, v, workItem, workGroup, unchecked);
-    src += stride * size;
-    dst += stride * size;
+    src += srcStride * size;
+    dst += dstStride * size;
   }
 
   delete[] v.data;
@@ -201,16 +201,43 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
     // Get size of copy
     unsigned elemSize;
+    unsigned vecwidth = 1;
     char ptrtype = paramTypes[6];
+    if (ptrtype == 'D')
+    {
+      char* typestr;
+      vecwidth = strtol(paramTypes.c_str() + 8, &typestr, 10);
+      if (vecwidth == 3)
+      {
+        vecwidth = 4;
+      }
+      ptrtype = typestr[1];
+    }
     switch (ptrtype)
     {
+    case 'c':
+    case 'h':
+      elemSize = 1;
+      break;
+    case 's':
+    case 't':
+      elemSize = 2;
+      break;
+    case 'f':
     case 'i':
+    case 'j':
       elemSize = 4;
       break;
+    case 'd':
+    case 'l':
+    case 'm':
+      elemSize = 8;
+      break;
     default:
       FATAL_ERROR("Unsupported argument type: %c", ptrtype);
       break;
     }
+    elemSize *= vecwidth;
 
     const llvm::Value* numOp = CI->getArgOperand(arg++);
     uint64_t num = workItem->getOperand(numOp).getUInt();
@@ -252,8 +279,11 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       dstAddrSpace = AddrSpaceGlobal;
     }
 
-    copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, num, stride,
-                            elemSize, workItem);
+    // Only accesses to global memory are strided
+    copyShadowMemoryStrided(
+      dstAddrSpace, dst, srcAddrSpace, src, num,
+      dstAddrSpace == AddrSpaceGlobal ? stride : 1,
+      srcAddrSpace == AddrSpaceGlobal ? stride : 1, elemSize, workItem);
     shadowValues->setValue(CI, eventShadow);
 
     // Check shadow of src address
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 07ccb47..d24d4a1 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -300,8 +300,8 @@ private:
                         bool unchecked = false);
   void copyShadowMemoryStrided(unsigned dstAddrSpace, size_t dst,
                                unsigned srcAddrSpace, size_t src, size_t num,
-                               size_t stride, unsigned size,
-                               const WorkItem* workItem = NULL,
+                               size_t dstStride, size_t srcStride,
+                               unsigned size, const WorkItem* workItem = NULL,
                                const WorkGroup* workGroup = NULL,
                                bool unchecked = false);
   static std::string extractUnmangledName(const std::string fullname,
-- 
2.43.0


From eefc52a75ef4fbc5d73a170f2d6d7c3a5b927bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:14 +0000
Subject: [PATCH 43/82] fix: uninitialized-value plugin and builtins that
 return values through pointers

---
 src/plugins/Uninitialized.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index c085827..5c4deb8 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -425,10 +425,11 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
         newElemShadow = ShadowContext::getCleanValue(result.size);
       }
 
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      memcpy(newShadow.data + i * result.size, newElemShadow.data,
+             result.size);
     }
 
-    storeShadowMemory(addrSpace, iptr, newShadow);
+    storeShadowMemory(addrSpace, iptr, newShadow, workItem);
     shadowValues->setValue(CI, newShadow);
 
     // Check shadow of address
@@ -451,8 +452,8 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     TypedValue newElemShadow;
     TypedValue newElemIntShadow;
     TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-    TypedValue newIntShadow = {newShadow.size, newShadow.num,
-                               shadowContext.getMemoryPool()->alloc(4)};
+    TypedValue newIntShadow = {
+      4, newShadow.num, shadowContext.getMemoryPool()->alloc(4 * result.num)};
 
     for (unsigned i = 0; i < result.num; ++i)
     {
@@ -467,11 +468,12 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
         newElemIntShadow = ShadowContext::getCleanValue(4);
       }
 
-      memcpy(newIntShadow.data, newElemIntShadow.data, 4);
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      memcpy(newIntShadow.data + i * 4, newElemIntShadow.data, 4);
+      memcpy(newShadow.data + i * result.size, newElemShadow.data,
+             result.size);
     }
 
-    storeShadowMemory(addrSpace, iptr, newIntShadow);
+    storeShadowMemory(addrSpace, iptr, newIntShadow, workItem);
     shadowValues->setValue(CI, newShadow);
 
     // Check shadow of address
@@ -494,7 +496,10 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     TypedValue arg1Shadow =
       shadowContext.getValue(workItem, CI->getArgOperand(1));
     TypedValue newElemShadow;
+    TypedValue newElemIntShadow;
     TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
+    TypedValue newIntShadow = {
+      4, newShadow.num, shadowContext.getMemoryPool()->alloc(4 * result.num)};
 
     for (unsigned i = 0; i < result.num; ++i)
     {
@@ -502,16 +507,20 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
           !ShadowContext::isCleanValue(arg1Shadow, i))
       {
         newElemShadow = ShadowContext::getPoisonedValue(result.size);
+        newElemIntShadow = ShadowContext::getPoisonedValue(4);
       }
       else
       {
         newElemShadow = ShadowContext::getCleanValue(result.size);
+        newElemIntShadow = ShadowContext::getCleanValue(4);
       }
 
-      storeShadowMemory(addrSpace, iptr + i * 4, newElemShadow);
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      memcpy(newIntShadow.data + i * 4, newElemIntShadow.data, 4);
+      memcpy(newShadow.data + i * result.size, newElemShadow.data,
+             result.size);
     }
 
+    storeShadowMemory(addrSpace, iptr, newIntShadow, workItem);
     shadowValues->setValue(CI, newShadow);
 
     // Check shadow of address
@@ -541,7 +550,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       }
       else
       {
-        size_t srcOffset = (mask.getUInt(i) % shadow.size) * shadow.size;
+        size_t srcOffset = (mask.getUInt(i) % shadow.num) * shadow.size;
         memcpy(newShadow.data + i * newShadow.size, shadow.data + srcOffset,
                newShadow.size);
       }
-- 
2.43.0


From 99fdda9823441001501a2aacc2097b240f5fabba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:50 +0000
Subject: [PATCH 44/82] fix: uninitialized-value plugin and address space
 casts, fences, atomic_cmpxchg

---
 src/plugins/Uninitialized.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 5c4deb8..30df0c6 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -347,9 +347,10 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
     return true;
   }
-  else if (name.compare(0, 6, "atomic") == 0)
+  else if (name.compare(0, 6, "atomic") == 0 && CI->arg_size() > 0 &&
+           CI->getArgOperand(0)->getType()->isPointerTy())
   {
-    if (name.compare(6, string::npos, "cmpxchg") == 0)
+    if (name == "atomic_cmpxchg")
     {
       const llvm::Value* Addr = CI->getArgOperand(0);
       unsigned addrSpace = Addr->getType()->getPointerAddressSpace();
@@ -1145,6 +1146,11 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
 
     break;
   }
+  case llvm::Instruction::AddrSpaceCast:
+  {
+    SimpleOr(workItem, instruction);
+    break;
+  }
   case llvm::Instruction::BitCast:
   {
     TypedValue shadow =
-- 
2.43.0


From bb85cbd563bb8c9267e46eb007c307a1ba321ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 45/82] fix: uninitialized-value plugin crashed when private
 memory was reused

---
 src/plugins/Uninitialized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 30df0c6..3defef1 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -2471,7 +2471,7 @@ void ShadowMemory::deallocate(size_t address)
 
   delete[] m_map.at(index)->data;
   delete m_map.at(index);
-  m_map.at(index) = NULL;
+  m_map.erase(index);
 }
 
 void ShadowMemory::dump() const
-- 
2.43.0


From 29d8f08c322395df41599099fde0372a756fbd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:53 +0000
Subject: [PATCH 46/82] fix: uninitialized-value plugin evaluated PHI nodes one
 after another

---
 src/plugins/Uninitialized.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 3defef1..d76feba 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1560,12 +1560,26 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
   }
   case llvm::Instruction::PHI:
   {
-    const llvm::PHINode* phiNode = (const llvm::PHINode*)instruction;
-    const llvm::Value* value =
-      phiNode->getIncomingValueForBlock(workItem->getPreviousBlock());
-    TypedValue shadowValue = shadowContext.getValue(workItem, value);
+    // All PHI nodes of a block are evaluated together, using the values from
+    // before the first one
+    const llvm::BasicBlock* block = instruction->getParent();
+    if (instruction != &block->front())
+    {
+      break;
+    }
+
+    std::list<std::pair<const llvm::Value*, TypedValue>> newShadows;
+    for (const llvm::PHINode& phiNode : block->phis())
+    {
+      const llvm::Value* value =
+        phiNode.getIncomingValueForBlock(workItem->getPreviousBlock());
+      newShadows.push_back({&phiNode, shadowContext.getValue(workItem, value)});
+    }
 
-    shadowValues->setValue(instruction, shadowValue);
+    for (auto& newShadow : newShadows)
+    {
+      shadowValues->setValue(newShadow.first, newShadow.second);
+    }
     break;
   }
   case llvm::Instruction::PtrToInt:
-- 
2.43.0


From 846629d8e340249b983a0aa75c5158410770f052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:53 +0000
Subject: [PATCH 47/82] fix: uninitialized-value plugin read image arguments as
 image structures

---
 src/plugins/Uninitialized.cpp | 87 +++--------------------------------
 src/plugins/Uninitialized.h   |  4 --
 2 files changed, 6 insertions(+), 85 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index d76feba..43412fe 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -857,7 +857,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     // Has to be changed in combination with the write functions
     size_t address = image->address;
 
-    if (!ShadowContext::isCleanImage(shadowImage))
+    if (!ShadowContext::isCleanValue(shadowImage))
     {
       newShadow = ShadowContext::getPoisonedValue(result);
     }
@@ -869,7 +869,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     shadowValues->setValue(CI, newShadow);
 
     // Check image
-    if (!ShadowContext::isCleanImageAddress(shadowImage))
+    if (!ShadowContext::isCleanValue(shadowImage))
     {
       logUninitializedAddress(AddrSpaceGlobal, address, false);
     }
@@ -890,7 +890,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     size_t address = image->address;
 
     // Check image
-    if (!ShadowContext::isCleanImageAddress(shadowImage))
+    if (!ShadowContext::isCleanValue(shadowImage))
     {
       logUninitializedAddress(AddrSpaceGlobal, address);
     }
@@ -901,46 +901,9 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
   {
     TypedValue shadowImage =
       shadowContext.getValue(workItem, CI->getArgOperand(0));
-    TypedValue newShadow = {
-      result.size, result.num,
-      shadowContext.getMemoryPool()->alloc(result.size * result.num)};
-
-    if (name == "get_image_array_size")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_array_size);
-    }
-    else if (name == "get_image_dim")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_width, 0);
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_height, 1);
-
-      if (newShadow.num > 2)
-      {
-        newShadow.setUInt(((Image*)shadowImage.data)->desc.image_depth, 2);
-        newShadow.setUInt(0, 3);
-      }
-    }
-    else if (name == "get_image_depth")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_depth);
-    }
-    else if (name == "get_image_height")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_height);
-    }
-    else if (name == "get_image_width")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_width);
-    }
-    else if (name == "get_image_channel_order")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->format.image_channel_order);
-    }
-    else if (name == "get_image_channel_data_type")
-    {
-      newShadow.setUInt(
-        ((Image*)shadowImage.data)->format.image_channel_data_type);
-    }
+    TypedValue newShadow = ShadowContext::isCleanValue(shadowImage)
+                             ? ShadowContext::getCleanValue(result)
+                             : ShadowContext::getPoisonedValue(result);
 
     shadowValues->setValue(CI, newShadow);
     return true;
@@ -2835,44 +2798,6 @@ TypedValue ShadowContext::getValue(const WorkItem* workItem,
   }
 }
 
-bool ShadowContext::isCleanImage(const TypedValue shadowImage)
-{
-  return (isCleanImageAddress(shadowImage) &&
-          isCleanImageDescription(shadowImage) &&
-          isCleanImageFormat(shadowImage));
-}
-
-bool ShadowContext::isCleanImageAddress(const TypedValue shadowImage)
-{
-  Image* image = (Image*)shadowImage.data;
-
-  return ShadowContext::isCleanValue(image->address);
-}
-
-bool ShadowContext::isCleanImageDescription(const TypedValue shadowImage)
-{
-  Image* image = (Image*)shadowImage.data;
-
-  // TODO: image->desc.buffer is currently not checked
-  return (ShadowContext::isCleanValue(image->desc.image_type) &&
-          ShadowContext::isCleanValue(image->desc.image_width) &&
-          ShadowContext::isCleanValue(image->desc.image_height) &&
-          ShadowContext::isCleanValue(image->desc.image_depth) &&
-          ShadowContext::isCleanValue(image->desc.image_array_size) &&
-          ShadowContext::isCleanValue(image->desc.image_row_pitch) &&
-          ShadowContext::isCleanValue(image->desc.image_slice_pitch) &&
-          ShadowContext::isCleanValue(image->desc.num_mip_levels) &&
-          ShadowContext::isCleanValue(image->desc.num_samples));
-}
-
-bool ShadowContext::isCleanImageFormat(const TypedValue shadowImage)
-{
-  Image* image = (Image*)shadowImage.data;
-
-  return (ShadowContext::isCleanValue(image->format.image_channel_order) &&
-          ShadowContext::isCleanValue(image->format.image_channel_data_type));
-}
-
 bool ShadowContext::isCleanStruct(ShadowMemory* shadowMemory, size_t address,
                                   const llvm::StructType* structTy)
 {
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index d24d4a1..c4a4062 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -231,10 +231,6 @@ public:
     return llvm::isa<llvm::Constant>(V) || m_globalValues.count(V) ||
            m_workSpace.workItems->at(workItem)->getValues()->hasValue(V);
   }
-  static bool isCleanImage(const TypedValue shadowImage);
-  static bool isCleanImageAddress(const TypedValue shadowImage);
-  static bool isCleanImageDescription(const TypedValue shadowImage);
-  static bool isCleanImageFormat(const TypedValue shadowImage);
   static bool isCleanStruct(ShadowMemory* shadowMemory, size_t address,
                             const llvm::StructType* structTy);
   static bool isCleanValue(unsigned long v);
-- 
2.43.0


From 0e0a0feaada0f1ddbc620eb2b1a66a897763bca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:53 +0000
Subject: [PATCH 48/82] fix: uninitialized-value plugin lost track of global
 memory

---
 src/plugins/Uninitialized.cpp | 54 ++++++++++++++++-------------------
 src/plugins/Uninitialized.h   |  6 ++--
 2 files changed, 27 insertions(+), 33 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 43412fe..da72041 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -27,14 +27,6 @@
 using namespace oclgrind;
 using namespace std;
 
-// void Uninitialized::memoryAllocated(const Memory *memory, size_t address,
-//                                 size_t size, cl_mem_flags flags,
-//                                 const uint8_t *initData)
-//{
-//    cout << "Memory: " << memory << ", address: " << hex << address << dec <<
-//    ", size: " << size << endl;
-//}
-
 // Multiple mutexes to mitigate risk of unnecessary synchronisation in atomics
 #define NUM_ATOMIC_MUTEXES 64 // Must be power of two
 static std::mutex atomicShadowMutex[NUM_ATOMIC_MUTEXES];
@@ -47,13 +39,9 @@ THREAD_LOCAL ShadowContext::WorkSpace ShadowContext::m_workSpace = {NULL, NULL,
 Uninitialized::Uninitialized(const Context* context)
     : Plugin(context), shadowContext(sizeof(size_t) == 8 ? 32 : 16)
 {
-  shadowContext.createMemoryPool();
 }
 
-Uninitialized::~Uninitialized()
-{
-  shadowContext.destroyMemoryPool();
-}
+Uninitialized::~Uninitialized() {}
 
 void Uninitialized::allocAndStoreShadowMemory(unsigned addrSpace,
                                               size_t address, TypedValue SM,
@@ -1037,8 +1025,8 @@ void Uninitialized::hostMemoryStore(const Memory* memory, size_t address,
 {
   if (memory->getAddressSpace() == AddrSpaceGlobal)
   {
-    TypedValue v = ShadowContext::getCleanValue(size);
-    allocAndStoreShadowMemory(AddrSpaceGlobal, address, v);
+    std::vector<unsigned char> clean(size, 0);
+    shadowContext.getGlobalMemory()->store(clean.data(), address, size);
   }
 }
 
@@ -1828,6 +1816,8 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
 
 void Uninitialized::kernelBegin(const KernelInvocation* kernelInvocation)
 {
+  shadowContext.createMemoryPool();
+
   const Kernel* kernel = kernelInvocation->getKernel();
 
   // Initialise kernel arguments and global variables
@@ -1863,18 +1853,6 @@ void Uninitialized::kernelBegin(const KernelInvocation* kernelInvocation)
         // Global pointer kernel arguments
         // value->second.data == ptr
         // value->second.size == ptr size
-        size_t address = value->second.getPointer();
-
-        if (m_context->getGlobalMemory()->isAddressValid(address) &&
-            !shadowContext.getGlobalMemory()->isAddressValid(address))
-        {
-          // Allocate poisoned global memory if there was no host store
-          size_t size = m_context->getGlobalMemory()->getBuffer(address)->size;
-          allocAndStoreShadowMemory(AddrSpaceGlobal, address,
-                                    ShadowContext::getPoisonedValue(size), NULL,
-                                    NULL, true);
-        }
-
         m_deferredInit.push_back(*value);
         break;
       }
@@ -1943,6 +1921,7 @@ void Uninitialized::kernelEnd(const KernelInvocation* kernelInvocation)
   m_deferredInit.clear();
   m_deferredInitGroup.clear();
   shadowContext.clearGlobalValues();
+  shadowContext.destroyMemoryPool();
 }
 
 void Uninitialized::loadShadowMemory(unsigned addrSpace, size_t address,
@@ -2013,10 +1992,25 @@ void Uninitialized::logUninitializedWrite(unsigned int addrSpace,
 void Uninitialized::memoryMap(const Memory* memory, size_t address,
                               size_t offset, size_t size, cl_map_flags flags)
 {
-  if (!(flags & CL_MAP_READ))
+  // The host may write to the whole region
+  if (flags != CL_MAP_READ && memory->getAddressSpace() == AddrSpaceGlobal)
+  {
+    std::vector<unsigned char> clean(size, 0);
+    shadowContext.getGlobalMemory()->store(clean.data(), address + offset,
+                                           size);
+  }
+}
+
+void Uninitialized::memoryAllocated(const Memory* memory, size_t address,
+                                    size_t size, cl_mem_flags flags,
+                                    const uint8_t* initData)
+{
+  if (memory->getAddressSpace() == AddrSpaceGlobal)
   {
-    allocAndStoreShadowMemory(memory->getAddressSpace(), address + offset,
-                              ShadowContext::getCleanValue(size));
+    ShadowMemory* shadow = shadowContext.getGlobalMemory();
+    std::vector<unsigned char> v(size, initData ? 0 : 0xff);
+    shadow->allocate(address, size);
+    shadow->store(v.data(), address, size);
   }
 }
 
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index c4a4062..69b16a7 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -268,15 +268,15 @@ public:
                                    const TypedValue& result) override;
   virtual void kernelBegin(const KernelInvocation* kernelInvocation) override;
   virtual void kernelEnd(const KernelInvocation* kernelInvocation) override;
+  virtual void memoryAllocated(const Memory* memory, size_t address,
+                               size_t size, cl_mem_flags flags,
+                               const uint8_t* initData) override;
   virtual void memoryMap(const Memory* memory, size_t address, size_t offset,
                          size_t size, cl_map_flags flags) override;
   virtual void workItemBegin(const WorkItem* workItem) override;
   virtual void workItemComplete(const WorkItem* workItem) override;
   virtual void workGroupBegin(const WorkGroup* workGroup) override;
   virtual void workGroupComplete(const WorkGroup* workGroup) override;
-  // virtual void memoryAllocated(const Memory *memory, size_t address,
-  //                             size_t size, cl_mem_flags flags,
-  //                             const uint8_t *initData);
 private:
   std::list<std::pair<const llvm::Value*, TypedValue>> m_deferredInit;
   std::list<std::pair<const llvm::Value*, TypedValue>> m_deferredInitGroup;
-- 
2.43.0


From 93472abd90e80b8759c4bc804d537831e76760e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:57 +0000
Subject: [PATCH 49/82] fix: uninitialized-value plugin and exchanges of
 uninitialized memory

---
 src/plugins/Uninitialized.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index da72041..fc0451e 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -2072,7 +2072,10 @@ void Uninitialized::SimpleOrAtomic(const WorkItem* workItem,
 
   loadShadowMemory(addrSpace, address, oldShadow, workItem);
 
-  if (!ShadowContext::isCleanValue(oldShadow))
+  // An exchange does not use the old value
+  bool exchange =
+    CI->getCalledFunction()->getName().contains("atomic_xchg");
+  if (!exchange && !ShadowContext::isCleanValue(oldShadow))
   {
     newShadow = ShadowContext::getPoisonedValue(4);
   }
-- 
2.43.0


From 042fc78fcff44f673184a3941c927dec820f29c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:59 +0000
Subject: [PATCH 50/82] fix: printf returned an indeterminate value

---
 src/core/WorkItemBuiltins.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index b118a51..8fa413c 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3376,6 +3376,9 @@ class WorkItemBuiltins
     size_t formatPtr = workItem->getOperand(ARG(0)).getPointer();
     Memory* memory = workItem->getMemory(AddrSpaceGlobal);
 
+    // Output errors are not detected
+    result.setSInt(0);
+
     int arg = 1;
     while (true)
     {
-- 
2.43.0


From 4137b76207ca3ce42cfab9d1a165a849e791bd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:59 +0000
Subject: [PATCH 51/82] fix: printf ignored the h and hh modifiers of scalar
 conversions

---
 src/core/WorkItemBuiltins.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 8fa413c..23aafb7 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3392,6 +3392,7 @@ class WorkItemBuiltins
       if (c == '%')
       {
         unsigned vectorWidth = 1;
+        unsigned halves = 0;
         string format = "%";
         while (true)
         {
@@ -3417,9 +3418,14 @@ class WorkItemBuiltins
             continue;
           }
 
-          // Ignore all 'h' specifiers
+          // Vector elements already have the size that 'h' specifies, but scalar
+          // arguments have been promoted and need to be converted back
           if (c == 'h')
+          {
+            halves++;
             continue;
+          }
+          unsigned bits = vectorWidth > 1 || !halves ? 64 : halves == 1 ? 16 : 8;
 
           format += c;
           bool done = false;
@@ -3432,7 +3438,9 @@ class WorkItemBuiltins
             {
               if (i > 0)
                 printf(",");
-              printf(format.c_str(), SARGV(arg, i));
+              printf(format.c_str(),
+                     (int64_t)((uint64_t)SARGV(arg, i) << (64 - bits)) >>
+                       (64 - bits));
             }
             arg++;
             done = true;
@@ -3446,7 +3454,7 @@ class WorkItemBuiltins
             {
               if (i > 0)
                 printf(",");
-              printf(format.c_str(), UARGV(arg, i));
+              printf(format.c_str(), UARGV(arg, i) << (64 - bits) >> (64 - bits));
             }
             arg++;
             done = true;
-- 
2.43.0


From ce6f3dd14d8017b946c3170af4fb8fbd444e38aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:24 +0000
Subject: [PATCH 52/82] fix: oclgrind-kernel rejected files without a newline
 at the end

---
 src/kernel/Simulation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 1c462da..b2affe1 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -97,7 +97,8 @@ template <typename T> void Simulation::get(T& result)
 
     // Get next line
     string line;
-    getline(m_simfile, line);
+    if (!getline(m_simfile, line))
+      break;
     m_lineNumber++;
 
     // Remove comments
@@ -110,7 +111,7 @@ template <typename T> void Simulation::get(T& result)
     // Update line buffer
     m_lineBuffer.clear();
     m_lineBuffer.str(line);
-  } while (m_simfile.good());
+  } while (true);
 
   // Couldn't read data from file, throw exception
   throw m_simfile.eof() ? ifstream::eofbit : ifstream::failbit;
-- 
2.43.0


From aaf5eee5f6e418121f8225a55fee94419360fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:24 +0000
Subject: [PATCH 53/82] fix: oclgrind-kernel and the end of simulator files:
 comments were rejected, other input on the last line was not

---
 src/kernel/Simulation.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index b2affe1..7a3fc48 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -219,8 +219,18 @@ bool Simulation::load(const char* filename)
 
     // Make sure there is no more input
     string next;
-    m_simfile >> next;
-    if (m_simfile.good() || !m_simfile.eof())
+    bool eof = false;
+    try
+    {
+      get(next);
+    }
+    catch (ifstream::iostate e)
+    {
+      if (e != ifstream::eofbit)
+        throw;
+      eof = true;
+    }
+    if (!eof)
     {
       cerr << "Unexpected token '" << next << "' (expected EOF)" << endl;
       return false;
-- 
2.43.0


From eabee1f976fc38df80be7eb6e5b41133f0e98b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:24 +0000
Subject: [PATCH 54/82] fix: oclgrind-kernel and several arguments on a line

---
 src/kernel/Simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 7a3fc48..2fe31f8 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -302,7 +302,7 @@ void Simulation::parseArgument(size_t index)
   streampos startpos = m_lineBuffer.tellg();
   string headerStr;
   getline(m_lineBuffer, headerStr);
-  size_t end = headerStr.find_last_of('>');
+  size_t end = headerStr.find_first_of('>');
   if (end == string::npos)
   {
     throw "Missing '>' at end of argument header";
-- 
2.43.0


From cbadb48a157560f627fa106788c00dc7dc98e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:00 +0000
Subject: [PATCH 55/82] fix: oclgrind-kernel crashed on empty work-groups

---
 src/kernel/Simulation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 2fe31f8..1597026 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -201,6 +201,14 @@ bool Simulation::load(const char* filename)
       return false;
     }
 
+    // Ensure NDRange and work-group size are not empty
+    if (!m_ndrange.x || !m_ndrange.y || !m_ndrange.z || !m_wgsize.x ||
+        !m_wgsize.y || !m_wgsize.z)
+    {
+      cerr << "NDRange and work group size must be non-zero." << endl;
+      return false;
+    }
+
     // Ensure work-group size exactly divides NDRange if necessary
     if (m_kernel->requiresUniformWorkGroups() &&
         (m_ndrange.x % m_wgsize.x || m_ndrange.y % m_wgsize.y ||
-- 
2.43.0


From 6080eaab588a02f8415e773c8bbb4b909716ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:47 +0000
Subject: [PATCH 56/82] fix: oclgrind-kernel sign-extended char values when
 dumping in hexadecimal

---
 src/kernel/Simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 1597026..7f200db 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -60,7 +60,7 @@ template <typename T> void Simulation::dumpArgument(DumpArg& arg)
     if (arg.hex)
       cout << "0x" << setfill('0') << setw(sizeof(T) * 2) << hex;
     if (sizeof(T) == 1)
-      cout << (int)data[i];
+      cout << (arg.hex ? (int)(uint8_t)data[i] : (int)data[i]);
     else
       cout << data[i];
     cout << dec;
-- 
2.43.0


From acbcc0e566bd2c5d65ee629abd3d67bfb9c68f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:47 +0000
Subject: [PATCH 57/82] fix: oclgrind-kernel accepted sizes other than the
 argument's and read past the given data

---
 src/kernel/Simulation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 7f200db..ee758c0 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -502,6 +502,12 @@ void Simulation::parseArgument(size_t index)
     throw "Initialiser type must exactly divide argument size";
   }
 
+  // Ensure data size matches size of values passed directly
+  if (addrSpace == CL_KERNEL_ARG_ADDRESS_PRIVATE && size != argSize)
+  {
+    throw "Size doesn't match kernel argument";
+  }
+
   // Ensure 'dump' only used with non-null buffers
   if (dump)
   {
-- 
2.43.0


From 39f224ac0ab0b761d3c5f0448758f3a3c5ffd7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:40 +0000
Subject: [PATCH 58/82] fix: oclgrind-kernel printed a destroyed error message

---
 src/kernel/Simulation.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index ee758c0..07051d1 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -250,6 +250,12 @@ bool Simulation::load(const char* filename)
          << endl;
     return false;
   }
+  catch (const string& err)
+  {
+    cerr << "Line " << m_lineNumber << ": " << err << " (" << m_parsing << ")"
+         << endl;
+    return false;
+  }
   catch (ifstream::iostate e)
   {
     if (e == ifstream::eofbit)
@@ -449,7 +455,7 @@ void Simulation::parseArgument(size_t index)
       string err = "Unrecognised header token '";
       err += token;
       err += "'";
-      throw err.c_str();
+      throw err;
     }
   }
 
-- 
2.43.0


From 5ac9321f13ee841df4edda5f3640f1d29aaf16ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:30 +0000
Subject: [PATCH 59/82] fix: remainder work-groups had work-items outside the
 NDRange after switching to them in the debugger

---
 src/core/KernelInvocation.cpp | 28 ++++++++++++++++------------
 src/core/KernelInvocation.h   |  1 +
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index f220314..9727f5b 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -174,6 +174,20 @@ int KernelInvocation::getWorkerID() const
   return workerState.id;
 }
 
+WorkGroup* KernelInvocation::createWorkGroup(Size3 wgid) const
+{
+  Size3 wgsize = m_localSize;
+
+  // Handle remainder work-groups
+  for (unsigned i = 0; i < 3; i++)
+  {
+    if (wgsize[i] * (wgid[i] + 1) > m_globalSize[i])
+      wgsize[i] = m_globalSize[i] % wgsize[i];
+  }
+
+  return new WorkGroup(this, wgid, wgsize);
+}
+
 void KernelInvocation::runWorker(int id)
 {
   workerState.workGroup = NULL;
@@ -198,17 +212,7 @@ void KernelInvocation::runWorker(int id)
           // No more work to do
           break;
 
-        Size3 wgid = m_workGroups[index];
-        Size3 wgsize = m_localSize;
-
-        // Handle remainder work-groups
-        for (unsigned i = 0; i < 3; i++)
-        {
-          if (wgsize[i] * (wgid[i] + 1) > m_globalSize[i])
-            wgsize[i] = m_globalSize[i] % wgsize[i];
-        }
-
-        workerState.workGroup = new WorkGroup(this, wgid, wgsize);
+        workerState.workGroup = createWorkGroup(m_workGroups[index]);
         m_context->notifyWorkGroupBegin(workerState.workGroup);
       }
 
@@ -298,7 +302,7 @@ bool KernelInvocation::switchWorkItem(const Size3 gid)
     {
       if (group == *pItr)
       {
-        workerState.workGroup = new WorkGroup(this, group);
+        workerState.workGroup = createWorkGroup(group);
         m_context->notifyWorkGroupBegin(workerState.workGroup);
         found = true;
 
diff --git a/src/core/KernelInvocation.h b/src/core/KernelInvocation.h
index 0eebd6e..bc74020 100644
--- a/src/core/KernelInvocation.h
+++ b/src/core/KernelInvocation.h
@@ -58,6 +58,7 @@ private:
   std::atomic<unsigned> m_nextGroupIndex;
 
   // Worker threads
+  WorkGroup* createWorkGroup(Size3 wgid) const;
   void runWorker(int id);
   unsigned m_numWorkers;
 };
-- 
2.43.0


From 268d7fcc7638bd22ee6abecc64fdf2350c2fbbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:30 +0000
Subject: [PATCH 60/82] fix: the debugger's workitem command ignored global
 offsets and accepted any number of arguments

---
 src/plugins/InteractiveDebugger.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index b9b2f1a..52c0ae5 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -891,14 +891,22 @@ bool InteractiveDebugger::step(vector<string> args)
 
 bool InteractiveDebugger::workitem(vector<string> args)
 {
-  // TODO: Take offsets into account?
-  Size3 gid(0, 0, 0);
+  if (args.size() > 4)
+  {
+    cout << "Invalid number of arguments." << endl;
+    return false;
+  }
+
+  Size3 offset = m_kernelInvocation->getGlobalOffset();
+  Size3 gid = offset;
   for (unsigned i = 1; i < args.size(); i++)
   {
     // Parse argument as a target line number
     istringstream ss(args[i]);
     ss >> gid[i - 1];
-    if (!ss.eof() || gid[i - 1] >= m_kernelInvocation->getGlobalSize()[i - 1])
+    if (!ss.eof() || gid[i - 1] < offset[i - 1] ||
+        gid[i - 1] - offset[i - 1] >=
+          m_kernelInvocation->getGlobalSize()[i - 1])
     {
       cout << "Invalid global ID." << endl;
       return false;
@@ -908,7 +916,8 @@ bool InteractiveDebugger::workitem(vector<string> args)
   // Ugly const_cast since this operation actually changes something about
   // the simulation. This goes against the idea that plugins are entirely
   // passive.
-  if (!const_cast<KernelInvocation*>(m_kernelInvocation)->switchWorkItem(gid))
+  Size3 index(gid.x - offset.x, gid.y - offset.y, gid.z - offset.z);
+  if (!const_cast<KernelInvocation*>(m_kernelInvocation)->switchWorkItem(index))
   {
     cout << "Work-item has already finished, unable to load state." << endl;
     return false;
-- 
2.43.0


From 76cfffd3b1f0971bd6f20d7cfbe044ae20db5f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:30 +0000
Subject: [PATCH 61/82] fix: the debugger could pass over a breakpoint set
 after deleting all breakpoints

---
 src/plugins/InteractiveDebugger.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index 52c0ae5..5d357b9 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -245,9 +245,6 @@ InteractiveDebugger::getLineNumber(const llvm::Instruction* instruction) const
 
 bool InteractiveDebugger::hasHitBreakpoint()
 {
-  if (m_breakpoints.empty())
-    return false;
-
   // Check if we have passed over the previous breakpoint
   if (m_lastBreakLine)
   {
@@ -255,9 +252,11 @@ bool InteractiveDebugger::hasHitBreakpoint()
       m_lastBreakLine = 0;
     else
       return false;
-    ;
   }
 
+  if (m_breakpoints.empty())
+    return false;
+
   // Check if we're at a breakpoint
   size_t line = getCurrentLineNumber();
   map<size_t, size_t>::iterator itr;
-- 
2.43.0


From 032dde2cdcbcb00044977032998e5a4e590370a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:30 +0000
Subject: [PATCH 62/82] fix: the debugger showed, or crashed on, variables of
 other functions

---
 src/core/WorkItem.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index e1d5210..689a5dc 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -43,6 +43,7 @@ struct WorkItem::Position
   llvm::BasicBlock::const_iterator currInst;
   std::stack<const llvm::Instruction*> callStack;
   std::stack<std::list<size_t>> allocations;
+  std::stack<VariableMap> variables;
 };
 
 WorkItem::WorkItem(const KernelInvocation* kernelInvocation,
@@ -941,6 +942,8 @@ INSTRUCTION(call)
   {
     m_position->callStack.push(&*m_position->currInst);
     m_position->allocations.push(list<size_t>());
+    m_position->variables.push(VariableMap());
+    m_position->variables.top().swap(m_variables);
     m_position->nextBlock = &*function->begin();
 
     // Set function arguments
@@ -1393,6 +1396,10 @@ INSTRUCTION(ret)
     m_position->currBlock = m_position->currInst->getParent();
     m_position->callStack.pop();
 
+    // Restore variables of calling function
+    m_variables.swap(m_position->variables.top());
+    m_position->variables.pop();
+
     // Set return value
     const llvm::Value* returnVal = retInst->getReturnValue();
     if (returnVal)
-- 
2.43.0


From 81dd609d44915febb5a3de50b215903626d457aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:42 +0000
Subject: [PATCH 63/82] fix: the debugger's memory commands made it print line
 numbers in hexadecimal

---
 src/plugins/InteractiveDebugger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index 5d357b9..4c06495 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -741,6 +741,7 @@ bool InteractiveDebugger::mem(vector<string> args)
   if (args.size() == 1)
   {
     memory->dump();
+    cout << dec << nouppercase;
     return false;
   }
   else if (args.size() > 3)
@@ -791,7 +792,7 @@ bool InteractiveDebugger::mem(vector<string> args)
     }
     cout << " " << hex << uppercase << setw(2) << setfill('0') << (int)data[i];
   }
-  cout << endl << endl;
+  cout << dec << nouppercase << endl << endl;
 
   return false;
 }
-- 
2.43.0


From d75bf6147b69efd30f691108f868204c52ec539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:26 +0000
Subject: [PATCH 64/82] fix: work-groups the debugger switched away from at a
 barrier were not finished

---
 src/core/KernelInvocation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index 9727f5b..c0cc0a1 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -218,6 +218,12 @@ void KernelInvocation::runWorker(int id)
 
       // Execute work-group
       workerState.workItem = workerState.workGroup->getNextWorkItem();
+      if (!workerState.workItem && workerState.workGroup->hasBarrier())
+      {
+        // All work-items were at a barrier when the work-group was suspended
+        workerState.workGroup->clearBarrier();
+        workerState.workItem = workerState.workGroup->getNextWorkItem();
+      }
       while (workerState.workItem)
       {
         // Run work-item until complete or at barrier
-- 
2.43.0


From 2e3bbe043cdd22dc3531b1f05cd7d917fb87cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:29 +0000
Subject: [PATCH 65/82] fix: printing a pointer or structure in the debugger
 made it print line numbers in hexadecimal

---
 src/core/common.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/common.cpp b/src/core/common.cpp
index fe1eac6..e45e61d 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -863,7 +863,7 @@ void printTypedData(const llvm::Type* type, const unsigned char* data)
     break;
   }
   case llvm::Type::PointerTyID:
-    cout << "0x" << hex << *(size_t*)data;
+    cout << "0x" << hex << *(size_t*)data << dec;
     break;
   case llvm::Type::ArrayTyID:
   {
@@ -885,6 +885,7 @@ void printTypedData(const llvm::Type* type, const unsigned char* data)
     {
       cout << setw(2) << (int)data[i];
     }
+    cout << dec << nouppercase;
   }
 }
 
-- 
2.43.0


From 9c551eb8a0179384611faa6f580dae5749101ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:44 +0000
Subject: [PATCH 66/82] fix: do not change the case of hexadecimal digits after
 printing a structure

---
 src/core/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.cpp b/src/core/common.cpp
index e45e61d..dc9ba4a 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -885,7 +885,7 @@ void printTypedData(const llvm::Type* type, const unsigned char* data)
     {
       cout << setw(2) << (int)data[i];
     }
-    cout << dec << nouppercase;
+    cout << dec;
   }
 }
 
-- 
2.43.0


From 7fb1e5eb2aed19c399144100424c45bfbf5e5383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:52 +0000
Subject: [PATCH 67/82] fix: building or compiling a program that has kernels
 attached freed the code of those kernels

---
 src/runtime/icd.h       |  1 +
 src/runtime/runtime.cpp | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index e64b810..f1a4e7d 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -215,6 +215,7 @@ struct _cl_program
   oclgrind::Program* program;
   cl_context context;
   unsigned int refCount;
+  unsigned int numKernels = 0; // kernel objects attached to the program
 };
 
 struct _cl_kernel
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 5103b15..5abf61d 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2719,6 +2719,11 @@ CL_API_ENTRY cl_int CL_API_CALL clBuildProgram(
   {
     ReturnErrorArg(program->context, CL_INVALID_DEVICE, device);
   }
+  if (program->numKernels)
+  {
+    ReturnErrorInfo(program->context, CL_INVALID_OPERATION,
+                    "Program has kernel objects attached");
+  }
 
   // Build program
   bool success = program->program->build(oclgrind::Program::BUILD, options);
@@ -2778,6 +2783,11 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
   {
     ReturnErrorArg(program->context, CL_INVALID_DEVICE, device);
   }
+  if (program->numKernels)
+  {
+    ReturnErrorInfo(program->context, CL_INVALID_OPERATION,
+                    "Program has kernel objects attached");
+  }
 
   // Prepare headers
   list<oclgrind::Program::Header> headers;
@@ -3098,6 +3108,7 @@ clCreateKernel(cl_program program, const char* kernel_name,
   }
 
   clRetainProgram(program);
+  program->numKernels++;
 
   SetError(program->context, CL_SUCCESS);
   return kernel;
@@ -3142,6 +3153,7 @@ CL_API_ENTRY cl_int CL_API_CALL clCreateKernelsInProgram(
       kernels[i++] = kernel;
 
       clRetainProgram(program);
+      program->numKernels++;
     }
   }
 
@@ -3181,6 +3193,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseKernel(cl_kernel kernel)
   {
     delete kernel->kernel;
 
+    kernel->program->numKernels--;
     clReleaseProgram(kernel->program);
 
     delete kernel;
@@ -6151,6 +6164,7 @@ CL_API_ENTRY cl_kernel CL_API_CALL clCloneKernel(
   kernel->refCount = 1;
 
   clRetainProgram(kernel->program);
+  kernel->program->numKernels++;
 
   SetError(nullptr, CL_SUCCESS);
   return kernel;
-- 
2.43.0


From aa41e2cbee71664db3fd9f66bba6b510168a7f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:52 +0000
Subject: [PATCH 68/82] fix: wrong error code when creating a kernel from a
 program that is not built

---
 src/runtime/runtime.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 5abf61d..b58b91b 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3082,7 +3082,7 @@ clCreateKernel(cl_program program, const char* kernel_name,
   REGISTER_API;
 
   // Check parameters
-  if (program->dispatch != m_dispatchTable)
+  if (!program || program->dispatch != m_dispatchTable)
   {
     SetError(NULL, CL_INVALID_PROGRAM);
     return NULL;
@@ -3092,6 +3092,12 @@ clCreateKernel(cl_program program, const char* kernel_name,
     SetErrorArg(program->context, CL_INVALID_VALUE, kernel_name);
     return NULL;
   }
+  if (program->program->getBuildStatus() != CL_BUILD_SUCCESS)
+  {
+    SetErrorInfo(program->context, CL_INVALID_PROGRAM_EXECUTABLE,
+                 "Program not successfully built");
+    return NULL;
+  }
 
   // Create kernel object
   cl_kernel kernel = new _cl_kernel;
-- 
2.43.0


From 0c6bdb408f54fd01b1f15729e3c44f59337464ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:52 +0000
Subject: [PATCH 69/82] fix: linking programs that clash, or that are not
 compiled, ended the application

---
 src/core/Program.cpp    | 43 +++++++++++++++++++++++++++++++++++------
 src/runtime/runtime.cpp | 19 +++++++++++++++++-
 2 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 84b3b9a..c94d5ef 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -20,6 +20,8 @@
 #include "llvm/IR/AssemblyAnnotationWriter.h"
 #include "llvm/IR/Constants.h"
 #include "llvm/IR/DerivedTypes.h"
+#include "llvm/IR/DiagnosticInfo.h"
+#include "llvm/IR/DiagnosticPrinter.h"
 #include "llvm/IR/InstIterator.h"
 #include "llvm/IR/InstrTypes.h"
 #include "llvm/IR/Instructions.h"
@@ -705,23 +707,52 @@ Program* Program::createFromBitcodeFile(const Context* context,
   return new Program(context, module.get().release());
 }
 
+namespace
+{
+// Prints diagnostics of the linker, without ending the process on an error
+struct LinkDiagnosticHandler : llvm::DiagnosticHandler
+{
+  bool handleDiagnostics(const llvm::DiagnosticInfo& info) override
+  {
+    llvm::DiagnosticPrinterRawOStream printer(llvm::errs());
+    llvm::errs() << "OCLGRIND: ";
+    info.print(printer);
+    llvm::errs() << "\n";
+    return true;
+  }
+};
+} // namespace
+
 Program* Program::createFromPrograms(const Context* context,
                                      list<const Program*> programs,
                                      const char* options)
 {
   llvm::Module* module =
     new llvm::Module("oclgrind_linked", *context->getLLVMContext());
-  llvm::Linker linker(*module);
 
   // Link modules
-  list<const Program*>::iterator itr;
-  for (itr = programs.begin(); itr != programs.end(); itr++)
+  bool failed = false;
   {
-    unique_ptr<llvm::Module> m = llvm::CloneModule(*(*itr)->m_module);
-    if (linker.linkInModule(std::move(m)))
+    llvm::Linker linker(*module);
+    llvm::LLVMContext* llvmContext = context->getLLVMContext();
+    unique_ptr<llvm::DiagnosticHandler> handler =
+      llvmContext->getDiagnosticHandler();
+    llvmContext->setDiagnosticHandler(
+      std::make_unique<LinkDiagnosticHandler>());
+
+    list<const Program*>::iterator itr;
+    for (itr = programs.begin(); itr != programs.end() && !failed; itr++)
     {
-      return NULL;
+      unique_ptr<llvm::Module> m = llvm::CloneModule(*(*itr)->m_module);
+      failed = linker.linkInModule(std::move(m));
     }
+
+    llvmContext->setDiagnosticHandler(std::move(handler));
+  }
+  if (failed)
+  {
+    delete module;
+    return NULL;
   }
 
   // Set program binary type
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index b58b91b..c89b98b 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2850,11 +2850,28 @@ clLinkProgram(cl_context context, cl_uint num_devices,
     SetErrorArg(context, CL_INVALID_DEVICE, device_list);
     return NULL;
   }
+  if (num_input_programs == 0 || !input_programs)
+  {
+    SetErrorInfo(context, CL_INVALID_VALUE, "No input programs");
+    return NULL;
+  }
 
   // Prepare programs
   list<const oclgrind::Program*> programs;
   for (unsigned i = 0; i < num_input_programs; i++)
   {
+    if (!input_programs[i])
+    {
+      SetErrorInfo(context, CL_INVALID_PROGRAM,
+                   "input_programs[" << i << "] is NULL");
+      return NULL;
+    }
+    if (input_programs[i]->program->getBuildStatus() != CL_BUILD_SUCCESS)
+    {
+      SetErrorInfo(context, CL_INVALID_OPERATION,
+                   "input_programs[" << i << "] is not compiled");
+      return NULL;
+    }
     programs.push_back(input_programs[i]->program);
   }
 
@@ -2867,7 +2884,7 @@ clLinkProgram(cl_context context, cl_uint num_devices,
   prog->refCount = 1;
   if (!prog->program)
   {
-    SetError(context, CL_INVALID_BINARY);
+    SetErrorInfo(context, CL_LINK_PROGRAM_FAILURE, "Linking failed");
     delete prog;
     return NULL;
   }
-- 
2.43.0


From 1ebe1bb8bd6f6ed7c9e18269671827db9f2d0cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:52 +0000
Subject: [PATCH 70/82] fix: clCompileProgram did not call the callback or
 return the right error when it failed

---
 src/runtime/runtime.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index c89b98b..4a75480 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2789,19 +2789,29 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
                     "Program has kernel objects attached");
   }
 
+  if ((num_input_headers == 0) != (!input_headers && !header_include_names) ||
+      (num_input_headers > 0 && (!input_headers || !header_include_names)))
+  {
+    ReturnErrorInfo(program->context, CL_INVALID_VALUE,
+                    "num_input_headers does not match header lists");
+  }
+
   // Prepare headers
   list<oclgrind::Program::Header> headers;
   for (unsigned i = 0; i < num_input_headers; i++)
   {
+    if (!input_headers[i])
+    {
+      ReturnErrorInfo(program->context, CL_INVALID_PROGRAM,
+                      "input_headers[" << i << "] is NULL");
+    }
     headers.push_back(
       make_pair(header_include_names[i], input_headers[i]->program));
   }
 
   // Build program
-  if (!program->program->build(oclgrind::Program::COMPILE, options, headers))
-  {
-    ReturnError(program->context, CL_BUILD_PROGRAM_FAILURE);
-  }
+  bool success = program->program->build(oclgrind::Program::COMPILE, options,
+                                         headers);
 
   // Fire callback
   if (pfn_notify)
@@ -2809,6 +2819,11 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
     pfn_notify(program, user_data);
   }
 
+  if (!success)
+  {
+    ReturnError(program->context, CL_COMPILE_PROGRAM_FAILURE);
+  }
+
   return CL_SUCCESS;
 }
 
-- 
2.43.0


From 6ca948973a0f47dddb6b8ae16f78e783db191490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:52 +0000
Subject: [PATCH 71/82] fix: kernels used freed program scope variables after a
 program from a binary was built again

---
 src/core/Program.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index c94d5ef..b95dd80 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -289,6 +289,7 @@ bool Program::build(BuildType buildType, const char* options,
   {
     m_buildStatus = CL_BUILD_SUCCESS;
 
+    clearInterpreterCache();
     allocateProgramScopeVars();
 
     return true;
-- 
2.43.0


From e7828492287c1f92eee7f9b692fd31f74eafaa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:52 +0000
Subject: [PATCH 72/82] fix: program scope variables stayed allocated after a
 failed build

---
 src/core/Program.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index b95dd80..98cda67 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -298,6 +298,7 @@ bool Program::build(BuildType buildType, const char* options,
   if (m_module)
   {
     clearInterpreterCache();
+    deallocateProgramScopeVars();
     m_module.reset();
   }
 
-- 
2.43.0


From 37ad5f784a4b4f2bfef86c36da3bf439bb78420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:04 +0000
Subject: [PATCH 73/82] fix: a build option that does not start with a dash
 crashed the compiler

---
 src/core/Program.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 98cda67..4e25a1a 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -571,7 +571,15 @@ bool Program::build(BuildType buildType, const char* options,
 
   // Compile
   clang::EmitLLVMOnlyAction action(m_context->getLLVMContext());
-  if (compiler.ExecuteAction(action))
+  const auto& inputs = compiler.getFrontendOpts().Inputs;
+  if (inputs.size() != 1)
+  {
+    // Anything that is not an option is taken as a further input file
+    buildLog << "error: invalid build option '" << inputs.front().getFile()
+             << "'\n";
+    m_buildStatus = CL_BUILD_ERROR;
+  }
+  else if (compiler.ExecuteAction(action))
   {
     // Retrieve module
     m_module = action.takeModule();
-- 
2.43.0


From 0471e700d3ddf489db5599730894ad26bd71a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:03 +0000
Subject: [PATCH 74/82] fix: binary type of a program that was never built was
 uninitialised

---
 src/core/Program.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 4e25a1a..9983145 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -139,6 +139,7 @@ Program::Program(const Context* context, const string& source)
   m_buildLog = "";
   m_buildOptions = "";
   m_buildStatus = CL_BUILD_NONE;
+  m_binaryType = CL_PROGRAM_BINARY_TYPE_NONE;
   m_uid = 0;
   m_totalProgramScopeVarSize = 0;
 
-- 
2.43.0


From 69ddc73daecb08b35316bcf2ebdc1f56d75e40a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:03 +0000
Subject: [PATCH 75/82] fix: clCreateKernelsInProgram returned unusable kernels

---
 src/runtime/runtime.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 4a75480..4942b9b 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3183,9 +3183,18 @@ CL_API_ENTRY cl_int CL_API_CALL clCreateKernelsInProgram(
     list<string> names = program->program->getKernelNames();
     for (list<string>::iterator itr = names.begin(); itr != names.end(); itr++)
     {
+      oclgrind::Kernel* newKernel = program->program->createKernel(*itr);
+      if (!newKernel)
+      {
+        while (i > 0)
+          clReleaseKernel(kernels[--i]);
+        ReturnErrorInfo(program->context, CL_INVALID_PROGRAM_EXECUTABLE,
+                        "Unable to create kernel '" << *itr << "'");
+      }
+
       cl_kernel kernel = new _cl_kernel;
       kernel->dispatch = m_dispatchTable;
-      kernel->kernel = program->program->createKernel(*itr);
+      kernel->kernel = newKernel;
       kernel->program = program;
       kernel->refCount = 1;
       kernels[i++] = kernel;
-- 
2.43.0


From e37c0853f1b6b2df390c1e202b89d465c1c6b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:14 +0000
Subject: [PATCH 76/82] fix: CL_KERNEL_ATTRIBUTES returned memory that was
 already freed

---
 src/runtime/runtime.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 4942b9b..c24e2e3 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3406,6 +3406,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelInfo(
     cl_program program;
   } result_data;
   const char* str = 0;
+  string attributes;
 
   switch (param_name)
   {
@@ -3430,8 +3431,9 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelInfo(
     result_data.program = kernel->program;
     break;
   case CL_KERNEL_ATTRIBUTES:
-    result_size = kernel->kernel->getAttributes().size() + 1;
-    str = kernel->kernel->getAttributes().c_str();
+    attributes = kernel->kernel->getAttributes();
+    result_size = attributes.size() + 1;
+    str = attributes.c_str();
     break;
   default:
     ReturnErrorArg(kernel->program->context, CL_INVALID_VALUE, param_name);
-- 
2.43.0


From 00f148255c4cabd2675731f5f5cef0c9eb609d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:14 +0000
Subject: [PATCH 77/82] fix: CL_KERNEL_ATTRIBUTES did not name the type of
 vec_type_hint

---
 src/core/Kernel.cpp | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index c367827..2029ba6 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -357,12 +357,37 @@ string Kernel::getAttributes() const
       type = vecType->getElementType();
     }
 
-    // Generate attribute string
-    attributes << "vec_type_hint(" << flush;
-    llvm::raw_os_ostream out(attributes);
-    type->print(out);
-    out.flush();
-    attributes << n << ") ";
+    // Generate attribute string, with the OpenCL name of the type
+    attributes << "vec_type_hint(";
+    if (type->isHalfTy())
+      attributes << "half";
+    else if (type->isFloatTy())
+      attributes << "float";
+    else if (type->isDoubleTy())
+      attributes << "double";
+    else
+    {
+      if (!getMDAsConstInt(node->getOperand(1))->getZExtValue())
+        attributes << "u";
+      switch (type->getIntegerBitWidth())
+      {
+      case 8:
+        attributes << "char";
+        break;
+      case 16:
+        attributes << "short";
+        break;
+      case 32:
+        attributes << "int";
+        break;
+      default:
+        attributes << "long";
+        break;
+      }
+    }
+    if (n > 1)
+      attributes << n;
+    attributes << ") ";
   }
 
   return attributes.str();
-- 
2.43.0


From 0af0659825e6242cb11a45f744bfa585dc4dbf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:16 +0000
Subject: [PATCH 78/82] fix: context error callbacks got their user data as
 private_info

---
 src/runtime/runtime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index c24e2e3..0399c2c 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -154,7 +154,7 @@ void notifyAPIError(cl_context context, cl_int err, const char* function,
   // Fire context callback if set
   if (context && context->notify)
   {
-    context->notify(error.c_str(), context->data, 0, NULL);
+    context->notify(error.c_str(), NULL, 0, context->data);
   }
 }
 
-- 
2.43.0


From c499b9767f862d2b7ea42acc0469e21f5df4fa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:16 +0000
Subject: [PATCH 79/82] fix: buffers and images were created in spite of
 unsupported properties

---
 src/runtime/runtime.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 0399c2c..59b166b 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1485,6 +1485,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateBufferWithProperties(
   if (properties && properties[0] != 0)
   {
     SetErrorInfo(context, CL_INVALID_PROPERTY, "Unsupported property");
+    return NULL;
   }
 
   cl_mem buffer = createBuffer(context, flags, size, host_ptr, errcode_ret);
@@ -1915,6 +1916,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateImageWithProperties(
   if (properties && properties[0] != 0)
   {
     SetErrorInfo(context, CL_INVALID_PROPERTY, "Unsupported property");
+    return NULL;
   }
 
   cl_mem image = createImage(context, flags, image_format, image_desc, host_ptr,
-- 
2.43.0


From 9b3cbf65b83c6d06a82cdd2c1d0ed3497067ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:16 +0000
Subject: [PATCH 80/82] fix: clGetProgramInfo did not tell the context of a
 result too small

---
 src/runtime/runtime.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 59b166b..cd28e4d 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3022,7 +3022,8 @@ CL_API_ENTRY cl_int CL_API_CALL clGetProgramInfo(
     // Check destination is large enough
     if (param_value_size < result_size)
     {
-      ReturnErrorInfo(NULL, CL_INVALID_VALUE, ParamValueSizeTooSmall);
+      ReturnErrorInfo(program->context, CL_INVALID_VALUE,
+                      ParamValueSizeTooSmall);
     }
     else if (param_name == CL_PROGRAM_BINARIES)
     {
-- 
2.43.0


From 54aabcbbd0107f7ffcdb5fe79d11a6ba872b394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:55 +0000
Subject: [PATCH 81/82] fix: blocking transfers and maps did not report that an
 event they wait for failed

---
 src/runtime/runtime.cpp | 68 +++++++++++++++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 10 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index cd28e4d..6b6aa08 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3988,6 +3988,34 @@ CL_API_ENTRY cl_int CL_API_CALL clFinish(cl_command_queue command_queue)
 namespace
 {
 
+// Utility function for completing a blocking command: waits for the queue to
+// finish, and reports if the command was not executed because an event in its
+// wait list has failed.
+cl_int finishBlocking(cl_command_queue command_queue, cl_uint num_events,
+                      const cl_event* wait_list)
+{
+  // Callbacks may release events, so make sure they can still be queried
+  for (cl_uint i = 0; i < num_events; i++)
+    clRetainEvent(wait_list[i]);
+
+  cl_int err = clFinish(command_queue);
+
+  for (cl_uint i = 0; i < num_events; i++)
+  {
+    if (err == CL_SUCCESS && wait_list[i]->event->state < 0)
+      err = CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST;
+  }
+  for (cl_uint i = 0; i < num_events; i++)
+    clReleaseEvent(wait_list[i]);
+
+  if (err != CL_SUCCESS)
+  {
+    ReturnErrorInfo(command_queue->context, err,
+                    "An event in the wait list terminated with an error");
+  }
+  return CL_SUCCESS;
+}
+
 // Utility function for preparing one side of a rectangular transfer: replaces
 // pitches that are zero, and computes the byte offset of the first element.
 // Returns false if the pitches don't fit the region, or any byte of it would
@@ -4129,7 +4157,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
 
   if (blocking_read)
   {
-    return clFinish(command_queue);
+    return finishBlocking(command_queue, num_events_in_wait_list,
+                          event_wait_list);
   }
 
   return CL_SUCCESS;
@@ -4203,7 +4232,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
 
   if (blocking_read)
   {
-    return clFinish(command_queue);
+    return finishBlocking(command_queue, num_events_in_wait_list,
+                          event_wait_list);
   }
 
   return CL_SUCCESS;
@@ -4260,7 +4290,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
 
   if (blocking_write)
   {
-    return clFinish(command_queue);
+    return finishBlocking(command_queue, num_events_in_wait_list,
+                          event_wait_list);
   }
 
   return CL_SUCCESS;
@@ -4334,7 +4365,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
 
   if (blocking_write)
   {
-    return clFinish(command_queue);
+    return finishBlocking(command_queue, num_events_in_wait_list,
+                          event_wait_list);
   }
 
   return CL_SUCCESS;
@@ -4754,7 +4786,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
     command_queue, image, blocking_read, buffer_origin, host_origin,
     pixel_region, img_row_pitch, img_slice_pitch, row_pitch, slice_pitch, ptr,
     num_events_in_wait_list, event_wait_list, event);
-  if (event && ret == CL_SUCCESS)
+  if (event && (ret == CL_SUCCESS ||
+                ret == CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST))
   {
     (*event)->type = CL_COMMAND_READ_IMAGE;
   }
@@ -4824,7 +4857,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
     command_queue, image, blocking_write, buffer_origin, host_origin,
     pixel_region, img_row_pitch, img_slice_pitch, input_row_pitch,
     input_slice_pitch, ptr, num_events_in_wait_list, event_wait_list, event);
-  if (event && ret == CL_SUCCESS)
+  if (event && (ret == CL_SUCCESS ||
+                ret == CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST))
   {
     (*event)->type = CL_COMMAND_WRITE_IMAGE;
   }
@@ -5089,12 +5123,19 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
   asyncEnqueue(command_queue, CL_COMMAND_MAP_BUFFER, cmd,
                num_events_in_wait_list, event_wait_list, event);
 
-  SetError(command_queue->context, CL_SUCCESS);
   if (blocking_map)
   {
-    SetError(command_queue->context, clFinish(command_queue));
+    cl_int err = finishBlocking(command_queue, num_events_in_wait_list,
+                                event_wait_list);
+    if (err != CL_SUCCESS)
+    {
+      if (errcode_ret)
+        *errcode_ret = err;
+      return NULL;
+    }
   }
 
+  SetError(command_queue->context, CL_SUCCESS);
   return ptr;
 }
 
@@ -5190,12 +5231,19 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
   asyncEnqueue(command_queue, CL_COMMAND_MAP_IMAGE, cmd,
                num_events_in_wait_list, event_wait_list, event);
 
-  SetError(command_queue->context, CL_SUCCESS);
   if (blocking_map)
   {
-    SetError(command_queue->context, clFinish(command_queue));
+    cl_int err = finishBlocking(command_queue, num_events_in_wait_list,
+                                event_wait_list);
+    if (err != CL_SUCCESS)
+    {
+      if (errcode_ret)
+        *errcode_ret = err;
+      return NULL;
+    }
   }
 
+  SetError(command_queue->context, CL_SUCCESS);
   return ptr;
 }
 
-- 
2.43.0


From 9865271543c2ed65d8460131fd5868ffb41001a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:40 +0000
Subject: [PATCH 82/82] fix: instruction counts were wrong when the debugger
 switched between work-groups

---
 src/plugins/InstructionCounter.cpp | 24 ++++++++++++++++--------
 src/plugins/InstructionCounter.h   |  1 +
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/plugins/InstructionCounter.cpp b/src/plugins/InstructionCounter.cpp
index 77d2c81..bb9e36d 100644
--- a/src/plugins/InstructionCounter.cpp
+++ b/src/plugins/InstructionCounter.cpp
@@ -207,15 +207,9 @@ void InstructionCounter::workGroupBegin(const WorkGroup* workGroup)
     m_state.instCounts = new vector<size_t>;
     m_state.memopBytes = new vector<size_t>;
     m_state.functions = new vector<const llvm::Function*>;
-  }
-
-  m_state.instCounts->clear();
-  m_state.instCounts->resize(COUNTED_CALL_BASE);
-
-  m_state.memopBytes->clear();
-  m_state.memopBytes->resize(16);
 
-  m_state.functions->clear();
+    resetWorkerState();
+  }
 }
 
 void InstructionCounter::workGroupComplete(const WorkGroup* workGroup)
@@ -259,4 +253,18 @@ void InstructionCounter::workGroupComplete(const WorkGroup* workGroup)
   // Merge memory transfer sizes into global list
   for (unsigned i = 0; i < m_state.memopBytes->size(); i++)
     m_memopBytes[i] += m_state.memopBytes->at(i);
+
+  // Work-groups may be interleaved, so reset only what has been merged
+  resetWorkerState();
+}
+
+void InstructionCounter::resetWorkerState()
+{
+  m_state.instCounts->clear();
+  m_state.instCounts->resize(COUNTED_CALL_BASE);
+
+  m_state.memopBytes->clear();
+  m_state.memopBytes->resize(16);
+
+  m_state.functions->clear();
 }
diff --git a/src/plugins/InstructionCounter.h b/src/plugins/InstructionCounter.h
index ce9f332..97b0428 100644
--- a/src/plugins/InstructionCounter.h
+++ b/src/plugins/InstructionCounter.h
@@ -46,5 +46,6 @@ private:
   std::mutex m_mtx;
 
   std::string getOpcodeName(unsigned opcode) const;
+  void resetWorkerState();
 };
 } // namespace oclgrind
-- 
2.43.0

