From 7e0d643d36d1348c31211f94988ee22d9216038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 01/53] fix: thpool: wake every thpool_wait caller when the
 pool becomes idle

thpool_wait may be called by several threads; waking only one of them left
the others blocked for ever once the pool stayed idle.
---
 src/thread/thpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index ad47491..6d5f4bd 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -392,7 +392,7 @@ static void* thread_do(struct thread* thread_p){
 		pthread_mutex_lock(&thpool_p->thcount_lock);
 		thpool_p->num_threads_working--;
 		if (!thpool_p->num_threads_working) {
-			pthread_cond_signal(&thpool_p->threads_all_idle);
+			pthread_cond_broadcast(&thpool_p->threads_all_idle);
 		}
 		pthread_mutex_unlock(&thpool_p->thcount_lock);
 	}
-- 
2.43.0


From aa93e0ad41a22eb46cec98284b3c8123a05364a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 02/53] fix: thpool_destroy: do not free the pool while its
 last thread still holds thcount_lock

num_threads_alive drops to zero inside the critical section; destroy could
free the pool before the thread had unlocked the mutex living in it.
---
 src/thread/thpool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 6d5f4bd..327d86e 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -241,6 +241,10 @@ void thpool_destroy(thpool_* thpool_p){
 		sleep(1);
 	}
 
+	/* The last thread may still be inside its critical section */
+	pthread_mutex_lock(&thpool_p->thcount_lock);
+	pthread_mutex_unlock(&thpool_p->thcount_lock);
+
 	/* Job queue cleanup */
 	jobqueue_destroy(&thpool_p->jobqueue);
 	/* Deallocs */
-- 
2.43.0


From c5b5e6a899e5c7c58e77be8e9d38daebaa67db04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 03/53] fix: thpool: pause state belongs to thpool_pause, not
 to the signal handler

A thread that got the signal after thpool_resume put itself on hold for ever,
and creating another pool released the threads of a paused one.
---
 src/thread/thpool.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 327d86e..4cb8263 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -124,7 +124,6 @@ static void  bsem_wait(struct bsem *bsem_p);
 /* Initialize thread pool */
 struct thpool_* thpool_init(int num_threads){
 
-	threads_on_hold   = 0;
 	//threads_keepalive = 1;
 
 	if (num_threads < 0){
@@ -261,7 +260,6 @@ void thpool_destroy(thpool_* thpool_p){
 /* Sets the calling thread on hold */
 static void thread_hold(int sig_id) {
 	(void)sig_id;
-	threads_on_hold = 1;
 	while (threads_on_hold) {
 		err("thread_hold(): thread(%ld) on sleep(1)...\n", (long)GETTID());
 		sleep(1);
@@ -272,6 +270,9 @@ static void thread_hold(int sig_id) {
 /* Pause all threads in threadpool */
 void thpool_pause(thpool_* thpool_p) {
 	int n;
+	/* set here and not by the threads themselves: a thread that handles the signal
+	 * late must not put itself on hold again after thpool_resume */
+	threads_on_hold = 1;
 	for (n=0; n < thpool_p->num_threads_alive; n++){
 		if (pthread_kill(thpool_p->threads[n]->pthread, SIGUSR1)) {
 			err("send SIGUSR1 signal to thread failed.\n");
-- 
2.43.0


From adcb1a66cefc048057b6ea8a01b8ed6fdc8a8feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 04/53] fix: thpool: a paused thread must not own the pool's
 locks

The header promises that work can be added while the pool is paused, but a
thread stopped by SIGUSR1 inside jobqueue_pull/push (or malloc/free) kept its
lock until thpool_resume, so thpool_add_work could block for ever.
---
 src/thread/thpool.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 4cb8263..4acaaa6 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -114,6 +114,22 @@ static void  bsem_post(struct bsem *bsem_p);
 static void  bsem_post_all(struct bsem *bsem_p);
 static void  bsem_wait(struct bsem *bsem_p);
 
+/* A thread must not be put on hold while it owns a lock of the pool: whoever adds
+ * work to the paused pool would block until thpool_resume. */
+#ifndef _WIN32
+static void hold_defer(sigset_t *old_p) {
+	sigset_t set;
+	sigemptyset(&set);
+	sigaddset(&set, SIGUSR1);
+	pthread_sigmask(SIG_BLOCK, &set, old_p);
+}
+#define HOLD_DEFER(old)   sigset_t old; hold_defer(&old)
+#define HOLD_RESTORE(old) pthread_sigmask(SIG_SETMASK, &old, NULL)
+#else
+#define HOLD_DEFER(old)
+#define HOLD_RESTORE(old)
+#endif // !_WIN32
+
 
 
 
@@ -186,8 +202,10 @@ int thpool_add_work(thpool_* thpool_p, void (*function_p)(void*), void* arg_p){
 	}
 	job* newjob;
 
+	HOLD_DEFER(oldmask); /* a job may add work too */
 	newjob=(struct job*)malloc(sizeof(struct job));
 	if (newjob==NULL){
+		HOLD_RESTORE(oldmask);
 		err("thpool_add_work(): Could not allocate memory for new job\n");
 		return -2;
 	}
@@ -198,6 +216,7 @@ int thpool_add_work(thpool_* thpool_p, void (*function_p)(void*), void* arg_p){
 
 	/* add job to queue */
 	jobqueue_push(&thpool_p->jobqueue, newjob);
+	HOLD_RESTORE(oldmask);
 
 	return 0;
 }
@@ -366,6 +385,9 @@ static void* thread_do(struct thread* thread_p){
 	}
 #endif // !_WIN32
 
+	/* jobs run with the mask the thread was created with */
+	HOLD_DEFER(jobmask);
+
 	/* Mark thread as alive (initialized) */
 	pthread_mutex_lock(&thpool_p->thcount_lock);
 	thpool_p->num_threads_alive += 1;
@@ -390,7 +412,9 @@ static void* thread_do(struct thread* thread_p){
 		if (job_p) {
 			func_buff = job_p->function;
 			arg_buff = job_p->arg;
+			HOLD_RESTORE(jobmask);
 			func_buff(arg_buff);
+			HOLD_DEFER(unused);
 			free(job_p);
 		}
 
-- 
2.43.0


From 2a7a97b62682907d6e5582e60496ae546dc4b795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 05/53] fix: msg_queue_pop: report the size of the popped
 message

The header documents msg_size_p as updated to the real size; on success it kept
the size of the caller's buffer, so the message length was unknown.
---
 src/ring/msg_queue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ring/msg_queue.c b/src/ring/msg_queue.c
index 697e1c8..ce61c6b 100644
--- a/src/ring/msg_queue.c
+++ b/src/ring/msg_queue.c
@@ -96,6 +96,7 @@ msg_q_code_e msg_queue_pop(__in msg_queue msg_queue_p, __out void* msg_p, __inou
 	ASSERT_ABORT(read_bytes == sizeof(msg_header_t));
 	read_bytes = RingBuffer_read(msg_queue_p->ring_buf_p, msg_p, header.msg_size);
 	ASSERT_ABORT(read_bytes == header.msg_size);
+	*msg_size_p = header.msg_size; // tell caller the msg real size
 	return MSG_Q_CODE_SUCCESS;
 }
 
-- 
2.43.0


From 922de4d927ed88dc7cae714c4b27b2817e337d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 06/53] fix: msg_queue_destroy: accept a pointer to a NULL
 queue

Like every other destroy function of the library; it dereferenced the NULL handle.
---
 src/ring/msg_queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring/msg_queue.c b/src/ring/msg_queue.c
index ce61c6b..12720ff 100644
--- a/src/ring/msg_queue.c
+++ b/src/ring/msg_queue.c
@@ -120,7 +120,7 @@ uint32_t msg_queue_available_push_bytes(__in msg_queue msg_queue_p)
 
 void msg_queue_destroy(__inout msg_queue* msg_queue_pp)
 {
-	if (!msg_queue_pp || !((*msg_queue_pp)->ring_buf_p))
+	if (!msg_queue_pp || !*msg_queue_pp || !((*msg_queue_pp)->ring_buf_p))
 	{
 		return;
 	}
-- 
2.43.0


From 0e37318c48ae4e44c1c10968f5a61dae2e838b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 07/53] fix: auto_cover_buf: tell covered positions from
 retained ones

Positions were compared modulo the buffer size, so a covered position was
taken for the newer data stored at the same offset (a full buffer never
reported DATA_COVERED), and the write end was reported as covered instead of
as having no data yet.
---
 src/ring/autocover_buffer.c | 39 ++++++-------------------------------
 1 file changed, 6 insertions(+), 33 deletions(-)

diff --git a/src/ring/autocover_buffer.c b/src/ring/autocover_buffer.c
index e468983..509d6f9 100644
--- a/src/ring/autocover_buffer.c
+++ b/src/ring/autocover_buffer.c
@@ -62,42 +62,15 @@ static int auto_cover_buf_internal_read(const auto_cover_buf_handle buf_handle,
 
 	//default status is the data you want to read is been covered.
 	int real_can_read_len = AUTO_COVER_BUF_ERR_DATA_COVERED;
-	const uint32_t cover_read_off = read_pos & (buf_handle->ring_buffer_size - 1);
 	const uint32_t ring_available_data = RingBuffer_available_read(buf_handle->ring);
-	const uint32_t ring_read_off = RingBuffer_current_read_position(buf_handle->ring) & (buf_handle->ring_buffer_size - 1);
-	const uint32_t ring_write_off = RingBuffer_current_write_position(buf_handle->ring) & (buf_handle->ring_buffer_size - 1);
-	if (ring_write_off - ring_read_off == ring_available_data)
+	//distance from read_pos to the end of written data. positions are free-running(uint32_t wrap around is fine),
+	//comparing them modulo the buffer size would take a covered position for a newer one.
+	const uint32_t written_since_pos = RingBuffer_current_write_position(buf_handle->ring) - read_pos;
+	if (written_since_pos <= ring_available_data)
 	{
-		//current ring read from "out --> in"
-		//so "cover_read_off" should big(or equal) than "ring_read_off", small than "ring_write_off"
-		if (cover_read_off >= ring_read_off && cover_read_off < ring_write_off)
-		{
-			real_can_read_len = ring_available_data - (cover_read_off - ring_read_off);
-		}
-		//ELSE if "cover_read_off" not in range above, that means the data you want to read is already been covered.
-	}
-	else
-	{
-		//current ring available read from "out --> end" AND "0 --> in" 
-		do
-		{	//                     "in"	                              "out"
-			if (cover_read_off > ring_write_off && cover_read_off < ring_read_off)
-			{
-				//"cover_read_off" shouldn't in this range. if in, that means the data you want to read is already been covered.
-				break;
-			}
-			if (cover_read_off >= ring_read_off)
-			{
-				//cover_read_off is in "out --> end"
-				real_can_read_len = ring_available_data - (cover_read_off - ring_read_off);
-			}
-			else
-			{
-				//cover_read_off is in "0 --> in", so "0 --> cover_read_off" should discard.
-				real_can_read_len = ring_write_off - cover_read_off;
-			}
-		} while (0);
+		real_can_read_len = (int)written_since_pos;
 	}
+	//ELSE that means the data you want to read is already been covered.
 	ASSERT_ABORT(real_can_read_len <= (int)ring_available_data);
 
 	if (target && real_can_read_len >= (int)request_read_len)
-- 
2.43.0


From f54a3f4738f8269c84eb30477005351cada65b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 08/53] fix: hashmap_foreach: stop the whole iteration when the
 callback returns false

---
 src/data/hashmap.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index c90b6cd..705276f 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -373,16 +373,14 @@ void hashmap_foreach(hashmap_t* map, hashmap_iter_cb callback, void* context) {
 		return;
 	}
 	hashmap_enter(map);
-	for (i = 0; i < map->bucketCount; i++)
+	bool go_on = true;
+	for (i = 0; go_on && i < map->bucketCount; i++)
 	{
 		Entry* entry = map->buckets[i];
-		while (entry != NULL)
+		while (go_on && entry != NULL)
 		{
 			Entry* next = entry->next;
-			if (!callback(entry->key, entry->value, context))
-			{
-				break;
-			}
+			go_on = callback(entry->key, entry->value, context);
 			entry = next;
 		}
 	}
-- 
2.43.0


From 2d7c6276e87358a835675dfd3a250407b670fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 09/53] fix: lcu_realloc: keep the contents when the allocation
 tracker is off

---
 src/mem/allocator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index ad0f4f4..4fb737c 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -146,6 +146,12 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 		return lcu_malloc_trace(size + 2048U, file_path, func_name, file_line);
 	}
 
+	if (0 == allocation_tracker_resize_for_canary(0))
+	{
+		/* tracker is not running: nobody knows the size of ptr, and it is a plain block */
+		return realloc(ptr, size);
+	}
+
 	size_t cur_ptr_size = allocation_tracker_ptr_size(ALLOCTOR_ID, ptr);
 	if (cur_ptr_size && size <= cur_ptr_size)
 	{
-- 
2.43.0


From 609bb00b4691d0b9802d321f9b0637c223e6767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 10/53] fix: lcu_strndup: do not read behind the first len
 characters

---
 src/mem/allocator.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index 4fb737c..7481f6b 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -62,11 +62,7 @@ char* lcu_strdup(const char* str)
 
 char* lcu_strndup_trace(const char* str, size_t len, const char* file_path, const char* func_name, int file_line)
 {
-	size_t size = strlen(str);
-	if (len < size)
-	{
-		size = len;
-	}
+	size_t size = strnlen(str, len);
 	size_t real_size = allocation_tracker_resize_for_canary(size + 1);
 	void* ptr = malloc(real_size);
 	if (!ptr)
-- 
2.43.0


From e621ee157aa284d173017a6f2dded166fc022356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 11/53] fix: lcu_malloc/lcu_calloc/lcu_realloc: refuse sizes
 that overflow

---
 src/mem/allocator.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index 7481f6b..5142bb9 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -88,6 +88,10 @@ char* lcu_strndup(const char* str, size_t len)
 void* lcu_malloc_trace(size_t size, const char* file_path, const char* func_name, int file_line)
 {
 	size_t real_size = allocation_tracker_resize_for_canary(size);
+	if (real_size < size)
+	{
+		return NULL; // overflow
+	}
 	void* ptr = malloc(real_size);
 	if (!ptr)
 	{
@@ -105,6 +109,10 @@ void* lcu_calloc_trace(size_t item_count, size_t item_size, const char* file_pat
 {
 	size_t request_size = item_count * item_size;
 	size_t real_size = allocation_tracker_resize_for_canary(request_size);
+	if ((item_size != 0 && request_size / item_size != item_count) || real_size < request_size)
+	{
+		return NULL; // overflow
+	}
 	void* ptr = calloc(1, real_size);
 	if (!ptr)
 	{
@@ -136,6 +144,11 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 		return NULL;
 	}
 
+	if (size + 2048U < size)
+	{
+		return NULL; // overflow
+	}
+
 	if (NULL == ptr)
 	{
 		/* a little trick: give more memory than you need, for maybe reduce realloc times */
-- 
2.43.0


From e1cad40589d531e406205f868ea85ed6df46df33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 12/53] fix: str_params_create_str: do not leak the key of a
 repeated pair

---
 src/mem/str_params.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 0407bd2..66ef527 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -131,8 +131,15 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 		/* we replaced a value */
 		old_val = hashmap_put(parms->map, key, value);
 		RELEASE_OWNERSHIP(value);
-		RELEASE_OWNERSHIP(old_val);
-		RELEASE_OWNERSHIP(key);
+		if (old_val)
+		{
+			/* the map keeps the key it already has */
+			free(key);
+		}
+		else
+		{
+			RELEASE_OWNERSHIP(key);
+		}
 
 		items++;
 	label_next_pair:
-- 
2.43.0


From 137fc7c82226e56e27a79173520747804f74d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 13/53] fix: str_params_get_long/get_int: report numbers that
 do not fit

---
 src/mem/str_params.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 66ef527..ad31b51 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -6,6 +6,7 @@
 #include "mem/str_params.h"
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include "mem/strings.h"
 #include "data/hashmap.h"
@@ -276,11 +277,19 @@ int str_params_get_long(str_params_ptr params, const char* key, long* out_val)
 	{
 		return -ENOENT;
 	}
+	int saved_errno = errno;
+	errno = 0;
 	long val = strtol(value, &end, 0);
+	bool out_of_range = (errno == ERANGE);
+	errno = saved_errno;
 	if (*value == '\0' || *end != '\0')
 	{
 		return -EINVAL;
 	}
+	if (out_of_range)
+	{
+		return -ERANGE;
+	}
 	*out_val = val;
 	return 0;
 }
@@ -291,7 +300,11 @@ int str_params_get_int(str_params_ptr params, const char* key, int* out_val)
 	int ret = str_params_get_long(params, key, &long_num);
 	if (ret == 0)
 	{
-		*out_val = long_num;
+		if (long_num < INT_MIN || long_num > INT_MAX)
+		{
+			return -ERANGE;
+		}
+		*out_val = (int)long_num;
 	}
 	return ret;
 }
-- 
2.43.0


From 3890306c7ea848ffff87581a5478c284f1184490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 14/53] fix: str_params_add_double: do not cut off the digits
 of large numbers

---
 src/mem/str_params.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index ad31b51..ff4b7c3 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -233,7 +233,7 @@ int str_params_add_int(str_params_ptr params, const char* key, int value)
 
 int str_params_add_double(str_params_ptr params, const char* key, double value)
 {
-	char val_str[32];
+	char val_str[352]; /* -DBL_MAX with 10 decimals takes 321 characters */
 	int ret;
 	ret = snprintf(val_str, sizeof(val_str), "%.10f", value);
 	if (ret < 0)
-- 
2.43.0


From fd3cbe9f6820326aa1aa87c7d22039f5abde652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 15/53] fix: ini_parser_delete_section: forget the deleted
 section as last used one

---
 src/file/ini_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 957cf5c..db09468 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -422,6 +422,10 @@ ini_parser_code_e ini_parser_delete_section(ini_parser_handle parser_p, const ch
 	{
 		return INI_PARSER_CODE_NOT_FOUND_SECTION_KEY;
 	}
+	if (parser_p->p_last_used_section == p_section)
+	{
+		parser_p->p_last_used_section = NULL;
+	}
 	list_free(p_section->plist_section);
 	return list_remove(parser_p->plist_sections, p_section) ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_FAILED;
 }
-- 
2.43.0


From f5bbfc4a2728083531c6a16d070e980eb8151ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 16/53] fix: ini_parser_foreach: stop at once when the handler
 asks for it

---
 src/file/ini_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index db09468..acfdb9f 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -219,9 +219,9 @@ static bool iter_foreach_section(void* data, void* context)
 		return true; // just ignored empty section and continue
 	}
 
-	list_foreach(context_p->p_section_info->plist_section,
+	// the node at which the handler broke the chain, NULL if it didn't
+	return NULL == list_foreach(context_p->p_section_info->plist_section,
 		iter_foreach_section_key_value, context_p);
-	return true;
 }
 
 ini_parser_code_e ini_parser_foreach(ini_parser_handle parser_p, ini_parser_handler handler, void* user)
-- 
2.43.0


From 4cca93977ecf66e833652fe296e0722a75fffc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 17/53] fix: ini_parser_save: do not leak the file or report a
 failed write as success

---
 src/file/ini_parser.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index acfdb9f..47c7603 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -549,11 +549,6 @@ ini_parser_code_e ini_parser_save(ini_parser_handle parser_p, const char* file_p
 	{
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
-	FILE* fp = fopen(file_path, "wb");
-	if (!fp)
-	{
-		return INI_PARSER_CODE_INVALID_PARAM;
-	}
 	char* ini_str = ini_parser_dump(parser_p);
 	if (!ini_str || '\0' == ini_str[0])
 	{
@@ -563,11 +558,17 @@ ini_parser_code_e ini_parser_save(ini_parser_handle parser_p, const char* file_p
 		}
 		return INI_PARSER_CODE_FAILED;
 	}
+	FILE* fp = fopen(file_path, "wb");
+	if (!fp)
+	{
+		free(ini_str);
+		return INI_PARSER_CODE_INVALID_PARAM;
+	}
 	size_t ini_str_len = strlen(ini_str);
-	fwrite(ini_str, 1, ini_str_len, fp);
+	bool is_written = (ini_str_len == fwrite(ini_str, 1, ini_str_len, fp)) && (0 == fflush(fp));
 	free(ini_str);
 	fclose(fp);
-	return INI_PARSER_CODE_SUCCEED;
+	return is_written ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_FAILED;
 }
 
 ini_parser_code_e ini_parser_has_section_key(ini_parser_handle parser_p, const char* section, const char* key)
-- 
2.43.0


From 9ffc362bbe3697005da830f4bf83562f017409f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 18/53] fix: ini_parser_put_string: do not leak the key list
 when a section cannot be added

---
 src/file/ini_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 47c7603..1f0c8de 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -279,6 +279,7 @@ static section_info_t* search_target_section(ini_parser_handle parser_p, bool au
 		strlcpy(target_section->section_name, section, sizeof(target_section->section_name));
 		if (false == list_append(parser_p->plist_sections, target_section))
 		{
+			list_free(target_section->plist_section);
 			allocator_my_free(target_section);
 			return NULL;
 		}
-- 
2.43.0


From e7847e9a8da259269bbf52b12d65018a86f7ebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 19/53] fix: ini_parser_get_int/long/long_long/bool: fail for
 numbers that do not fit

---
 src/file/ini_parser.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 1f0c8de..26901cc 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -7,6 +7,8 @@
 #include "mem/stringbuilder.h"
 #include <stdio.h>       /* for fopen */
 #include <stdlib.h>      /* for atoi/atol/atof */
+#include <limits.h>      /* for INT_MAX/LONG_MAX */
+#include <errno.h>       /* for ERANGE */
 
 #define INI_VALUE_STACK_SIZE (256)
 #define SECTION_NAME_MAX_SIZE (INI_VALUE_STACK_SIZE / 4)
@@ -645,8 +647,9 @@ ini_parser_code_e ini_parser_destroy(ini_parser_handle* parser_pp)
 static long long parse_str2longlong(ini_parser_code_e* code_p, char* str_value)
 {
 	char* end_ptr = NULL;
+	errno = 0;
 	long long result = strtoll(str_value, &end_ptr, 0); // <-- when 0 == radix, it will auto detect radix 
-	*code_p = (!end_ptr || '\0' != *end_ptr) ? INI_PARSER_CODE_FAILED : INI_PARSER_CODE_SUCCEED;
+	*code_p = (!end_ptr || '\0' != *end_ptr || ERANGE == errno) ? INI_PARSER_CODE_FAILED : INI_PARSER_CODE_SUCCEED;
 	return result;
 }
 
@@ -696,7 +699,7 @@ if (!end_ptr || *end_ptr != '\0') { ret = INI_PARSER_CODE_FAILED; break; }\
 				result = false;
 				break;
 			}
-			int num = (int)parse_str2longlong(&ret, str_value);
+			long long num = parse_str2longlong(&ret, str_value);
 			if (INI_PARSER_CODE_SUCCEED == ret)
 			{
 				result = (0 == num ? false : true);
@@ -716,11 +719,25 @@ if (!end_ptr || *end_ptr != '\0') { ret = INI_PARSER_CODE_FAILED; break; }\
 	}
 	break;
 	case INI_VALUE_TYPE_INT:
-		*((int*)value) = (int)parse_str2longlong(&ret, str_value);
-		break;
+	{
+		long long result = parse_str2longlong(&ret, str_value);
+		if (result < INT_MIN || result > INT_MAX)
+		{
+			ret = INI_PARSER_CODE_FAILED;
+		}
+		*((int*)value) = (int)result;
+	}
+	break;
 	case INI_VALUE_TYPE_LONG:
-		*((long*)value) = (long)parse_str2longlong(&ret, str_value);
-		break;
+	{
+		long long result = parse_str2longlong(&ret, str_value);
+		if (result < LONG_MIN || result > LONG_MAX)
+		{
+			ret = INI_PARSER_CODE_FAILED;
+		}
+		*((long*)value) = (long)result;
+	}
+	break;
 	case INI_VALUE_TYPE_LONG_LONG:
 		*((long long*)value) = parse_str2longlong(&ret, str_value);
 		break;
-- 
2.43.0


From 2b8459a820c7465bca075f5e82153699c223835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 20/53] fix: ini_reader: read back whatever ini_parser can
 store and dump

---
 inc/file/ini_reader.h | 2 +-
 src/file/ini_reader.c | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/inc/file/ini_reader.h b/inc/file/ini_reader.h
index 2c18e89..cc27e1d 100644
--- a/inc/file/ini_reader.h
+++ b/inc/file/ini_reader.h
@@ -127,7 +127,7 @@ INI_API int ini_reader_parse_string(const char* string, ini_reader_handler handl
 /* Maximum line length for any line in INI file (stack or heap). Note that
    this must be 3 more than the longest line (due to '\r', '\n', and '\0'). */
 #ifndef INI_MAX_LINE
-#define INI_MAX_LINE 200
+#define INI_MAX_LINE 384
 #endif
 
 /* Nonzero to allow heap line buffer to grow via realloc(), zero for a
diff --git a/src/file/ini_reader.c b/src/file/ini_reader.c
index 634a4d3..acabd63 100644
--- a/src/file/ini_reader.c
+++ b/src/file/ini_reader.c
@@ -35,8 +35,9 @@ void* ini_reader_realloc(void* ptr, size_t size);
 #endif
 #endif // !INI_USE_STACK
 
-#define MAX_SECTION 50
-#define MAX_NAME 50
+/* not less than what ini_parser stores, otherwise its dumps can't be read back */
+#define MAX_SECTION 64
+#define MAX_NAME 64
 
 /* Used by ini_reader_parse_string() to keep track of string parsing state. */
 typedef struct {
-- 
2.43.0


From 217c17ed54886cb7f7a4ebc8ba0f79345789fe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 21/53] fix: ini_reader: report a line that is too long instead
 of misreading its rest

---
 src/file/ini_reader.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_reader.c b/src/file/ini_reader.c
index acabd63..b6fbd87 100644
--- a/src/file/ini_reader.c
+++ b/src/file/ini_reader.c
@@ -108,8 +108,9 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
 #endif
 #if INI_ALLOW_REALLOC && !INI_USE_STACK
     char* new_line;
-    size_t offset;
 #endif
+    size_t offset;
+    char abyss[16];  /* Used to consume the rest of a line that is too long */
     char section[MAX_SECTION] = "";
     char prev_name[MAX_NAME] = "";
 
@@ -135,8 +136,8 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
 
     /* Scan through stream line by line */
     while (reader(line, (int)max_line, stream) != NULL) {
-#if INI_ALLOW_REALLOC && !INI_USE_STACK
         offset = strlen(line);
+#if INI_ALLOW_REALLOC && !INI_USE_STACK
         while (offset == max_line - 1 && line[offset - 1] != '\n') {
             max_line *= 2;
             if (max_line > INI_MAX_LINE)
@@ -157,6 +158,16 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
 
         lineno++;
 
+        /* A line that exceeds the buffer is an error, its rest isn't a line of its own */
+        if (offset == max_line - 1 && line[offset - 1] != '\n') {
+            while (reader(abyss, (int)sizeof(abyss), stream) != NULL) {
+                if (!error)
+                    error = lineno;
+                if (abyss[strlen(abyss) - 1] == '\n')
+                    break;
+            }
+        }
+
         start = line;
 #if INI_ALLOW_BOM
         if (lineno == 1 && (unsigned char)start[0] == 0xEF &&
-- 
2.43.0


From 8afe7832e52b5b7b6cb7ecdcb46749654f7ffcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 22/53] fix: strreplace: terminate for an empty pattern

---
 src/mem/strings.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index bf405eb..9dfb60f 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -114,7 +114,8 @@ char* strreplace(char const* const original,
 	const char* patloc;
 
 	// find how many times the pattern occurs in the original string
-	for (oriptr = original; NULL != (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
+	// (an empty pattern occurs nowhere: nothing to replace)
+	for (oriptr = original; patlen && NULL != (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
 	{
 		++patcnt;
 	}
@@ -129,7 +130,7 @@ char* strreplace(char const* const original,
 		// copy the original string, 
 		// replacing all the instances of the pattern
 		char* retptr = returned;
-		for (oriptr = original; (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
+		for (oriptr = original; patlen && (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
 		{
 			size_t const skplen = patloc - oriptr;
 			// copy the section until the occurrence of the pattern
-- 
2.43.0


From 3f6928d5b59e4e42f5edc33ae2f8012b80796b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 23/53] fix: strnutf8len: do not read the byte behind max_count

---
 src/mem/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index 9dfb60f..68a9bf3 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -188,7 +188,7 @@ size_t strnutf8len(const char* utf8str, size_t max_count)
 {
 	size_t code_points = 0;
 	size_t chars_count = 0;
-	while (*utf8str && chars_count < max_count) 
+	while (chars_count < max_count && *utf8str) 
 	{
 		code_points += ((*utf8str & 0xC0) != 0x80);
 		++utf8str;
-- 
2.43.0


From 6acf4f39b30ca0cabe8fc63de0e5811caef8e590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 24/53] fix: str_char2hex: use the documented capacity and stay
 within a smaller one

---
 src/mem/strings.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index 68a9bf3..095a51c 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -202,17 +202,25 @@ size_t str_char2hex(char* out_hex_str, size_t out_hex_str_capacity,
 {
 #define ONE_HEX_STR_SIZE (3U)
 	size_t len_hex_str = 0U;
+	if (0U == out_hex_str_capacity)
+	{
+		return 0U;
+	}
 	out_hex_str[0] = '\0';
 
-	if (chars_count * ONE_HEX_STR_SIZE >= out_hex_str_capacity)
+	if (chars_count > (out_hex_str_capacity - 1U) / ONE_HEX_STR_SIZE)
 	{
-		len_hex_str = snprintf(out_hex_str, out_hex_str_capacity - 1U, "hex truncated(%zu):", chars_count);
-		chars_count = out_hex_str_capacity / ONE_HEX_STR_SIZE - 1U;
+		len_hex_str = snprintf(out_hex_str, out_hex_str_capacity, "hex truncated(%zu):", chars_count);
+		if (len_hex_str >= out_hex_str_capacity)
+		{
+			len_hex_str = out_hex_str_capacity - 1U; // even the notice was cut
+		}
+		chars_count = (out_hex_str_capacity - 1U - len_hex_str) / ONE_HEX_STR_SIZE;
 	}
 	for (size_t chars_index = 0U; chars_index < chars_count; ++chars_index)
 	{
 		int ret_sn = snprintf(out_hex_str + len_hex_str,
-			out_hex_str_capacity - len_hex_str - 1,
+			out_hex_str_capacity - len_hex_str,
 			" %02x", (unsigned char)chars[chars_index]);
 		if (ONE_HEX_STR_SIZE != ret_sn /*ret_sn < 0*/) /* should be ONE_HEX_STR_SIZE */
 		{
-- 
2.43.0


From fc68a3b3977c2354ef85453c5d79ba0f7348e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 25/53] fix: stringbuilder_appendnstr: append at most the
 string's own length

---
 src/mem/stringbuilder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mem/stringbuilder.c b/src/mem/stringbuilder.c
index a64fd98..dacaf49 100644
--- a/src/mem/stringbuilder.c
+++ b/src/mem/stringbuilder.c
@@ -115,6 +115,10 @@ int stringbuilder_appendnstr(stringbuilder_t* sb, const char* str, size_t len)
 	{
 		len = strlen(str);
 	}
+	else
+	{
+		len = strnlen(str, len); // never more than the string has
+	}
 	if (len == 0)
 	{
 		return -2;
-- 
2.43.0


From e5ac28902b99f1ce9778a01ce1655f5256a1bb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 26/53] fix: stringbuilder_appendf: keep the text when the
 format cannot be converted

---
 src/mem/stringbuilder.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mem/stringbuilder.c b/src/mem/stringbuilder.c
index dacaf49..86d4b5a 100644
--- a/src/mem/stringbuilder.c
+++ b/src/mem/stringbuilder.c
@@ -144,12 +144,13 @@ int stringbuilder_appendf(stringbuilder_t* sb, const char* format, ...)
 
 	va_start(va, format);
 	// first we get the string length that will write. ('\0' is not belong of the length)
-	size_t len = vsnprintf(NULL, 0, format, va);
+	const int format_len = vsnprintf(NULL, 0, format, va);
 	va_end(va);
-	if (len < 1)
+	if (format_len < 1)
 	{
 		return -2;
 	}
+	const size_t len = (size_t)format_len;
 
 	if (sb_ensure_space(sb, len) != 0)
 	{
-- 
2.43.0


From ad601be21ac724c36940947211270c414fa4b161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:24 +0000
Subject: [PATCH 27/53] fix: integer_rounddown_pow_of_two: values above 2^31
 round down to 2^31

---
 src/data/integer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/integer.c b/src/data/integer.c
index 44a3815..fac8718 100644
--- a/src/data/integer.c
+++ b/src/data/integer.c
@@ -37,5 +37,9 @@ uint32_t integer_rounddown_pow_of_two(uint32_t i)
 	{
 		return roundup_integer;
 	}
+	if (0U == roundup_integer)
+	{
+		return 1U << 31; // above 2^31: the next power of two is not representable
+	}
 	return (roundup_integer >> 1);
 }
-- 
2.43.0


From d10e02288a400588ccb59464bc70d09d4c25685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:14 +0000
Subject: [PATCH 28/53] fix: time_util: an empty time cache does not match the
 first second of the epoch

---
 src/time/time_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index 0955a69..1e7ef4d 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -31,8 +31,8 @@ typedef struct
 
 static time_cache_t g_time_caches[2] =
 {
-	{.rw_lock = NULL, },
-	{.rw_lock = NULL, },
+	{.rw_lock = NULL, .tval = {.tv_sec = -1, }, },
+	{.rw_lock = NULL, .tval = {.tv_sec = -1, }, },
 };
 
 #endif // USE_TIME_CACHE
-- 
2.43.0


From da9ed5983b27fa3b443a551ae919bddbe93193fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:14 +0000
Subject: [PATCH 29/53] fix: time_util_fast_second2date: do not cut the seconds
 to 32 bits

---
 src/time/time_util.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index 1e7ef4d..8a1e927 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -193,11 +193,11 @@ int time_util_fast_second2date(const time_t* p_unix_sec, struct tm* lt, int time
 	#define kMagicUnkonwnFirst  (146097)
 	#define kMagicUnkonwnSec    (1461)
 	lt->tm_sec = (*p_unix_sec) % kMinutesInHour;
-	int minutes = ((int)(*p_unix_sec) / kMinutesInHour);
+	int64_t minutes = ((int64_t)(*p_unix_sec) / kMinutesInHour);
 	lt->tm_min = minutes % kMinutesInHour; //nn
-	int hours = minutes / kMinutesInHour + timezone_hour;
+	int64_t hours = minutes / kMinutesInHour + timezone_hour;
 	lt->tm_hour = hours % kHoursInDay; // hh
-	lt->tm_mday = hours / kHoursInDay;
+	lt->tm_mday = (int)(hours / kHoursInDay);
 	int a = lt->tm_mday + kDaysFromUnixTime;
 	int b = (a * 4 + 3) / kMagicUnkonwnFirst;
 	int c = (-b * kMagicUnkonwnFirst) / 4 + a;
-- 
2.43.0


From 04d9198338c9b52a78d07a2ffe96f6cd0205c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:14 +0000
Subject: [PATCH 30/53] fix: time_util_fast_second2date: first hours of 1970 in
 negative time zones

---
 src/time/time_util.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index 8a1e927..54c5b33 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -198,6 +198,11 @@ int time_util_fast_second2date(const time_t* p_unix_sec, struct tm* lt, int time
 	int64_t hours = minutes / kMinutesInHour + timezone_hour;
 	lt->tm_hour = hours % kHoursInDay; // hh
 	lt->tm_mday = (int)(hours / kHoursInDay);
+	if (lt->tm_hour < 0) // west of Greenwich it is still 1969
+	{
+		lt->tm_hour += kHoursInDay;
+		--lt->tm_mday;
+	}
 	int a = lt->tm_mday + kDaysFromUnixTime;
 	int b = (a * 4 + 3) / kMagicUnkonwnFirst;
 	int c = (-b * kMagicUnkonwnFirst) / 4 + a;
-- 
2.43.0


From 591e7f069b34b0fc42630e0a0896fee037ace222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:14 +0000
Subject: [PATCH 31/53] fix: time_util_fast_second2date: fill the day of the
 week, the day of the year and the DST flag

---
 src/time/time_util.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index 54c5b33..5994112 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -203,6 +203,7 @@ int time_util_fast_second2date(const time_t* p_unix_sec, struct tm* lt, int time
 		lt->tm_hour += kHoursInDay;
 		--lt->tm_mday;
 	}
+	lt->tm_wday = (lt->tm_mday + 11) % 7; // 1970.1.1 was a Thursday
 	int a = lt->tm_mday + kDaysFromUnixTime;
 	int b = (a * 4 + 3) / kMagicUnkonwnFirst;
 	int c = (-b * kMagicUnkonwnFirst) / 4 + a;
@@ -212,6 +213,11 @@ int time_util_fast_second2date(const time_t* p_unix_sec, struct tm* lt, int time
 	lt->tm_mday = -(kDaysFromYear * m + 2) / 5 + e + 1;
 	lt->tm_mon = (-m / 10) * 12 + m + 2;
 	lt->tm_year = b * 100 + d - 6700 + (m / 10);
+	static const int days_before_month[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
+	const int year = lt->tm_year + 1900;
+	lt->tm_yday = days_before_month[lt->tm_mon] + lt->tm_mday - 1 +
+		((lt->tm_mon > 1 && year % 4 == 0 && (year % 100 != 0 || year % 400 == 0)) ? 1 : 0);
+	lt->tm_isdst = 0;
 	return 0;
 }
 
-- 
2.43.0


From ad45639f8b14753670e79233dcacdbe1c0ef4038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 32/53] fix: file_util_mkdirs: terminate a path of the maximum
 length

---
 src/file/file_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 1f859e4..3cdd16c 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -75,7 +75,7 @@ int file_util_mkdirs(__in const char* folder_path)
 	{
 		return -2; // dir too long
 	}
-	char tmp_dir_path[MAX_FOLDER_PATH_LEN] = { 0 };
+	char tmp_dir_path[MAX_FOLDER_PATH_LEN + 1] = { 0 };
 	for (size_t i = 0; i < dir_path_len; ++i)
 	{
 		tmp_dir_path[i] = folder_path[i];
-- 
2.43.0


From 449116a50ff22e8bdeef31033ee0236ee83fade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 33/53] fix: file_util_mkdirs: a folder that someone else
 creates meanwhile is no error

---
 src/file/file_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 3cdd16c..d36260c 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -89,7 +89,7 @@ int file_util_mkdirs(__in const char* folder_path)
 			//folder already exists
 			continue;
 		}
-		if (0 != (ret = MKDIR(tmp_dir_path)))
+		if (0 != (ret = MKDIR(tmp_dir_path)) && 0 != ACCESS(tmp_dir_path, 0))
 		{
 			//error occurred on mkdir
 			return ret;
-- 
2.43.0


From 98f62a282351286cc016658b0f3a69522a9fb545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 34/53] fix: file_util_append_slash_on_path_if_needed: do not
 overwrite the path's last character

---
 src/file/file_util.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index d36260c..c19bcd7 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -48,10 +48,12 @@ int file_util_append_slash_on_path_if_needed(__inout char* folder_path, __in con
 	{
 		return 0;
 	}
-	const size_t slash_location = (path_len + 1) < folder_path_size ?
-		path_len : (path_len - 1);
-	folder_path[slash_location] = slash_char;
-	folder_path[slash_location + 1] = '\0';
+	if ((path_len + 1) >= folder_path_size)
+	{
+		return -3; // no room for the slash
+	}
+	folder_path[path_len] = slash_char;
+	folder_path[path_len + 1] = '\0';
 	return 0;
 }
 
-- 
2.43.0


From 9b90008f448dd290a5064bef91338a1d695a8855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 35/53] fix: file_iterator_foreach: an entry that cannot be
 examined does not silently end the iteration

---
 src/file/file_iterator.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/file/file_iterator.c b/src/file/file_iterator.c
index a8ec870..273af01 100644
--- a/src/file/file_iterator.c
+++ b/src/file/file_iterator.c
@@ -39,6 +39,7 @@ int file_iterator_foreach(char* dir, file_iterator_handle_file_info_fn handler,
 	DIR* dirp;
 	struct dirent* direntp;
 	int stats;
+	int ret = 0;
 	struct stat statbuf;
 
 	char path_buf[PATH_MAX + 1] = { 0 };
@@ -71,7 +72,11 @@ int file_iterator_foreach(char* dir, file_iterator_handle_file_info_fn handler,
 		}
 		snprintf(path_buf, sizeof(path_buf) - 1, "%s/%s", dir, direntp->d_name);
 		stats = pri_get_file_stat(path_buf, &statbuf);
-		if (stats == -1) break;
+		if (stats == -1)
+		{
+			ret = 1; // cannot be examined (for example a dangling link): go on with the others, but tell
+			continue;
+		}
 		/*if (FILE_ITERATOR_TYPE_FILE == stats)
 		{
 			LOGD("file:%s", path_buf);
@@ -90,5 +95,5 @@ int file_iterator_foreach(char* dir, file_iterator_handle_file_info_fn handler,
 		if (0 != handler(&info, user_data)) break;
 	}
 	closedir(dirp);
-	return 0;
+	return ret;
 }
-- 
2.43.0


From 38ceeba2c0450bd8b2d7625b6acc4e02722c8cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 36/53] fix: file_util_read_txt: report a read error

---
 src/file/file_util.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index c19bcd7..6aa25c4 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -196,6 +196,10 @@ int file_util_read_txt(__in const char* file_path,
 			break;
 		}
 	}
+	if (0 == ret && ferror(fp))
+	{
+		ret = -2;
+	}
 	fclose(fp);
 	return ret;
 }
-- 
2.43.0


From 4a3f5b85901ba04d9be93ce2f494aa34c0fd7785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 37/53] fix: file_util_read_txt: do not split lines of more
 than 1023 characters

---
 src/file/file_util.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 6aa25c4..335db49 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -162,16 +162,43 @@ int file_util_read_txt(__in const char* file_path,
 	int ret = 0;
 	FILE* fp;
 	int line_num;
-	char* p, buf[1024];
+	char* p;
+	size_t buf_size = 1024, len;
 
 	fp = fopen(file_path, "r");
 	if (NULL == fp)
 	{
 		return -1;
 	}
+	char* buf = malloc(buf_size);
+	if (NULL == buf)
+	{
+		fclose(fp);
+		return -1;
+	}
 	// if fgets returned not null, it make sure buf end with '\0'
-	for (line_num = 0; NULL != fgets(buf, sizeof(buf), fp); ++line_num) 
+	for (line_num = 0; NULL != fgets(buf, (int)buf_size, fp); ++line_num) 
 	{
+		// a line may be longer than the buffer: get the rest of it
+		while ((len = strlen(buf)) == buf_size - 1 && buf[len - 1] != '\n')
+		{
+			char* bigger = realloc(buf, buf_size * 2);
+			if (NULL == bigger)
+			{
+				ret = -3;
+				break;
+			}
+			buf = bigger;
+			buf_size *= 2;
+			if (NULL == fgets(buf + len, (int)(buf_size - len), fp))
+			{
+				break;
+			}
+		}
+		if (0 != ret)
+		{
+			break;
+		}
 		if (NULL == (p = strchr(buf, '\n'))) 
 		{
 			p = buf + strlen(buf);
@@ -200,6 +227,7 @@ int file_util_read_txt(__in const char* file_path,
 	{
 		ret = -2;
 	}
+	free(buf);
 	fclose(fp);
 	return ret;
 }
-- 
2.43.0


From c4fb24ea6a4cfc643a8e86cac75a08607facd754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 38/53] fix: file_util_read_all: refuse a file whose size does
 not fit into the length

---
 src/file/file_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 335db49..6b0194c 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -261,7 +261,7 @@ int file_util_read_all(__in const char* file_path, __out char** out_alloced_file
 	*out_file_byte_len = (int)file_size;
 	do
 	{
-		if (file_size < 1)
+		if (file_size < 1 || file_size > 0x7FFFFFFFL) // out_file_byte_len can not tell more
 		{
 			ret = -3;
 			break;
-- 
2.43.0


From cfd3a2f9f9f6fe8a6de27a8885be252753398bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 39/53] fix: lcu_global_init: report and undo a failed
 initialization

---
 src/lcu.c            | 7 +++++++
 src/log/xlog.c       | 3 +--
 src/time/time_util.c | 5 +++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lcu.c b/src/lcu.c
index bfe1685..7101b32 100644
--- a/src/lcu.c
+++ b/src/lcu.c
@@ -19,6 +19,13 @@ int lcu_global_init()
 	// do not use any lcu function before init! such as XLOG, get TIME 
 	int ret = time_util_global_init();
 	ret |= xlog_global_init();
+	if (ret < 0)
+	{
+		// failed: nothing is initialized, so that the next call can try again
+		g_init_times = 0;
+		xlog_global_cleanup();
+		time_util_global_cleanup();
+	}
 	return ret;
 }
 
diff --git a/src/log/xlog.c b/src/log/xlog.c
index 436cdfc..3da4fef 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -121,8 +121,7 @@ int xlog_global_init()
 	{
 		return 1;
 	}
-	portable_mutex_init(&g_xlog_mutex, NULL);
-	return 0;
+	return portable_mutex_init(&g_xlog_mutex, NULL);
 }
 
 int xlog_global_cleanup()
diff --git a/src/time/time_util.c b/src/time/time_util.c
index 5994112..5ceb832 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -133,6 +133,7 @@ int gettimeofday(struct timeval* tp, struct timezone* tzp)
 
 int time_util_global_init()
 {
+	int ret = 0;
 #if(defined(USE_TIME_CACHE) && USE_TIME_CACHE)
 	for (int i = 0; i < ARRAY_LEN(g_time_caches); ++i)
 	{
@@ -140,10 +141,10 @@ int time_util_global_init()
 		{
 			continue;
 		}
-		portable_rwlock_init(&(g_time_caches[i].rw_lock), NULL);
+		ret |= portable_rwlock_init(&(g_time_caches[i].rw_lock), NULL);
 	}
 #endif // USE_TIME_CACHE  
-	return 0;
+	return ret;
 }
 
 int time_util_global_cleanup()
-- 
2.43.0


From 62a623d130e1f6e82994d363fed2fa11cb1eb5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:40 +0000
Subject: [PATCH 40/53] fix: xlog: a long function name must not overflow the
 record buffer

---
 src/log/xlog.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/log/xlog.c b/src/log/xlog.c
index 3da4fef..0449e91 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -394,12 +394,17 @@ static inline int my_int2str(int num, char* str)
 }
 
 // (func:line)  
-static inline int print_func_line(char* buffer, const char* func, int line_num)
+static inline int print_func_line(char* buffer, size_t buffer_size, const char* func, int line_num)
 {
+#define FUNC_LINE_OTHER_SIZE (16) // "(:) ", the digits of line_num and NUL terminator
 	char *str = buffer;
 	str[0] = '(';
 	++str;
 	size_t len_func = strlen(func);
+	if (len_func > buffer_size - FUNC_LINE_OTHER_SIZE)
+	{
+		len_func = buffer_size - FUNC_LINE_OTHER_SIZE; // cut a name that does not fit
+	}
 	memcpy(str, func, len_func);
 	str += len_func;
 	str[0] = ':';
@@ -483,7 +488,7 @@ void __xlog_internal_print(LogLevel level, const char* tag, const char* func_nam
 #if(defined(USE_SNPRINTF_HEADER) && USE_SNPRINTF_HEADER)
 			buffer_strlen += snprintf(buffer_log + buffer_strlen, default_buffer_remaining_size, "(%s:%d) ", func_name, file_line);
 #else
-			buffer_strlen += print_func_line(buffer_log + buffer_strlen, func_name, file_line);
+			buffer_strlen += print_func_line(buffer_log + buffer_strlen, default_buffer_remaining_size, func_name, file_line);
 #endif // USE_SNPRINTF_HEADER
 	    }
 
-- 
2.43.0


From 441cc25e07f7aa8859aea1c9bfd499733b811b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:26 +0000
Subject: [PATCH 41/53] fix: xlog: consult the minimum level once per record

---
 src/log/xlog.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/log/xlog.c b/src/log/xlog.c
index 0449e91..e9b9750 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -106,7 +106,13 @@ static portable_mutex_t g_xlog_mutex = NULL;
 #define XLOG_IS_ANDROID_LOGABLE             _XLOG_IS_TARGET_LOGABLE(LOG_TARGET_ANDROID)
 #define XLOG_IS_USER_CALLBACK_LOGABLE       _XLOG_IS_TARGET_LOGABLE(LOG_TARGET_USER_CALLBACK)
 
-#define XLOG_IS_LEVEL_LOGABLE(level) (g_xlog_cfg.target && g_xlog_cfg.min_level && level < LOG_LEVEL_UNKNOWN && level >= g_xlog_cfg.min_level)
+#define XLOG_IS_LEVEL_LOGABLE(level) xlog_is_level_logable(level)
+static inline bool xlog_is_level_logable(LogLevel level)
+{
+	// read it once: another thread may change it meanwhile
+	const LogLevel min_level = *(volatile LogLevel*)&g_xlog_cfg.min_level;
+	return g_xlog_cfg.target && min_level && level < LOG_LEVEL_UNKNOWN && level >= min_level;
+}
 
 static const char g_map_level_chars[] = { '0', LEVEL_CHAR_V, LEVEL_CHAR_D, LEVEL_CHAR_I, LEVEL_CHAR_W, LEVEL_CHAR_E, '?' };
 
-- 
2.43.0


From ec1386778f37a9f914aafa0fb7ad9df007a1bd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 42/53] fix: hashmap_size reads the size under the lock of the
 map

---
 src/data/hashmap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index 705276f..07a6081 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -246,7 +246,10 @@ static inline bool equalKeys(void* keyA, int hashA, void* keyB, int hashB,
 
 size_t hashmap_size(hashmap_t* map)
 {
-	return map->size;
+	hashmap_enter(map);
+	size_t size = map->size;
+	hashmap_leave(map);
+	return size;
 }
 
 void* hashmap_put(hashmap_t* map, void* key, void* value)
-- 
2.43.0


From 191bd237d56807c0fe8e792e2d36a541d34675ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 43/53] fix: allocation tracker publishes an entry only after
 it is complete

---
 src/mem/allocation_tracker.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mem/allocation_tracker.c b/src/mem/allocation_tracker.c
index 5bba3c6..2bee40f 100644
--- a/src/mem/allocation_tracker.c
+++ b/src/mem/allocation_tracker.c
@@ -152,6 +152,7 @@ void* allocation_tracker_notify_alloc(allocator_id_t allocator_id, void* ptr, si
 	return_ptr += canary_size;
 
 	allocation_t* allocation = (allocation_t*)hashmap_get(allocations, return_ptr);
+	const bool is_new_allocation = (allocation == NULL);
 	if (allocation)
 	{
 		ASSERT_ABORT(allocation->freed); // Must have been freed before
@@ -160,7 +161,6 @@ void* allocation_tracker_notify_alloc(allocator_id_t allocator_id, void* ptr, si
 	{
 		allocation = (allocation_t*)calloc(1, sizeof(allocation_t));
 		ASSERT_ABORT(allocation);
-		hashmap_put(allocations, return_ptr, allocation);
 	}
 	allocation->allocator_id = allocator_id;
 	allocation->freed = false;
@@ -179,6 +179,12 @@ void* allocation_tracker_notify_alloc(allocator_id_t allocator_id, void* ptr, si
 	// Add the canary on both sides
 	memcpy(return_ptr - canary_size, canary, canary_size);
 	memcpy(return_ptr + requested_size, canary, canary_size);
+
+	// Publish the entry only now that it is complete: another thread may be reporting.
+	if (is_new_allocation)
+	{
+		hashmap_put(allocations, return_ptr, allocation);
+	}
 	return return_ptr;
 }
 
-- 
2.43.0


From e2ee57b7ce39d3e78fad9e44ced3f1f5b53bd5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:44 +0000
Subject: [PATCH 44/53] fix: portable_mutex_unlock: refuse a mutex that does
 not exist

---
 src/thread/portable_thread_posix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread/portable_thread_posix.c b/src/thread/portable_thread_posix.c
index 5b656ea..9709b1c 100644
--- a/src/thread/portable_thread_posix.c
+++ b/src/thread/portable_thread_posix.c
@@ -131,7 +131,7 @@ int portable_mutex_lock(portable_mutex_t* mutex)
 
 int portable_mutex_unlock(portable_mutex_t* mutex)
 {
-	if (NULL == mutex)
+	if (NULL == mutex || NULL == *mutex)
 	{
 		return -1;
 	}
-- 
2.43.0


From c636b89b0a995cfad5031cb06071828aa292cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 45/53] fix: portable_*_destroy: an object that could not be
 destroyed (still in use) stays usable

---
 src/thread/portable_thread_posix.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/thread/portable_thread_posix.c b/src/thread/portable_thread_posix.c
index 9709b1c..3922af6 100644
--- a/src/thread/portable_thread_posix.c
+++ b/src/thread/portable_thread_posix.c
@@ -149,8 +149,11 @@ int portable_mutex_destroy(portable_mutex_t* mutex)
 
 	portable_mutex_posix_t* posix = (portable_mutex_posix_t*)(*mutex);
 	ret = pthread_mutex_destroy(&posix->id);
-	free(posix);
-	*mutex = NULL;
+	if (0 == ret)
+	{
+		free(posix);
+		*mutex = NULL;
+	}
 	return ret;
 }
 //=================================================================
@@ -194,8 +197,11 @@ int portable_rwlock_destroy(portable_rwlock_t* lock)
 
 	portable_rwlock_posix_t* posix = (portable_rwlock_posix_t*)(*lock);
 	ret = pthread_rwlock_destroy(&posix->id);
-	free(posix);
-	*lock = NULL;
+	if (0 == ret)
+	{
+		free(posix);
+		*lock = NULL;
+	}
 	return ret;
 }
 
@@ -312,8 +318,11 @@ int portable_sem_destroy(portable_sem_t* sem)
 
 	portable_sem_posix_t* posix = (portable_sem_posix_t*)(*sem);
 	ret = sem_destroy(&posix->id);
-	free(posix);
-	*sem = NULL;
+	if (0 == ret)
+	{
+		free(posix);
+		*sem = NULL;
+	}
 	return ret;
 }
 //=================================================================
-- 
2.43.0


From 673e74f62eb146244e3c6824083663d6179c5e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 46/53] fix: portable_thread_join: keep the handle of a thread
 that could not be joined

---
 src/thread/portable_thread_posix.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thread/portable_thread_posix.c b/src/thread/portable_thread_posix.c
index 3922af6..0a3c84e 100644
--- a/src/thread/portable_thread_posix.c
+++ b/src/thread/portable_thread_posix.c
@@ -86,7 +86,10 @@ int portable_thread_join(portable_thread_t th, void** thread_return)
 	}
 	ret = pthread_join(posix->id, thread_return);
 	//posix->id = 0;
-	free(posix);
+	if (0 == ret)
+	{
+		free(posix);
+	}
 	return ret;
 }
 //=================================================================
-- 
2.43.0


From 4fb77bd8d92dbafc17a50629ea4c4fea11668fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:06 +0000
Subject: [PATCH 47/53] fix: file_logger: a new file never overwrites a log
 file created in the same millisecond

---
 src/log/file_logger.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index 78e2601..1746f43 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -220,6 +220,12 @@ static int handle_log_queue_msg(queue_msg_t* msg_p, void* user_data)
 		path_buffer[MAX_FULL_PATH_SIZE - 1] = '\0';
 		snprintf(path_buffer, MAX_FULL_PATH_SIZE - 1, "%s%s%s.log", 
 			handle->cfg.log_folder_path, handle->cfg.log_file_name_prefix, cur_time);
+		//several files may be created within one millisecond: never overwrite an earlier one
+		for (unsigned int i = 1U; 0 == file_util_access(path_buffer, 0); ++i)
+		{
+			snprintf(path_buffer, MAX_FULL_PATH_SIZE - 1, "%s%s%s_%u.log",
+				handle->cfg.log_folder_path, handle->cfg.log_file_name_prefix, cur_time, i);
+		}
 		handle->cur_fp = fopen(path_buffer, "wb");
 		handle->cur_log_file_size_counter = 0U;
 	}
-- 
2.43.0


From 5e8b6c0135732ba2f1e2ce596503a5a34b9231e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:49 +0000
Subject: [PATCH 48/53] fix: file_logger: create the log folder for the _lost
 file too

---
 src/log/file_logger.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index 1746f43..c254987 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -162,6 +162,7 @@ int file_logger_log(file_logger_handle handle, void* log_msg, size_t msg_size)
 	{
 		char path_buffer[MAX_FULL_PATH_SIZE];
 		path_buffer[MAX_FULL_PATH_SIZE - 1] = '\0';
+		file_util_mkdirs(handle->cfg.log_folder_path); // nothing may have been written there yet
 		snprintf(path_buffer, sizeof(path_buffer) - 1, "%s%s_lost.log",
 			handle->cfg.log_folder_path, handle->cfg.log_file_name_prefix);
 		MY_LOGE(" warning: lost log, you can see it on *_lost.log");
-- 
2.43.0


From 4b111bc39bf05f720d214e5df5f276d4dd6a93b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:38 +0000
Subject: [PATCH 49/53] fix: file_logger_init: fail cleanly when the folder
 path cannot be copied

---
 src/log/file_logger.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index c254987..019648b 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -94,6 +94,11 @@ file_logger_handle file_logger_init(file_logger_cfg *cfg_p)
 		return NULL;
 	}
 	char* log_folder_path_formatted = strreplace(cfg_p->log_folder_path, "\\", "/");
+	if (NULL == log_folder_path_formatted)
+	{
+		file_logger_deinit(&handle);
+		return NULL;
+	}
 	strlcpy(cfg_p->log_folder_path, log_folder_path_formatted, MAX_LOG_FOLDER_PATH_SIZE);
 	free(log_folder_path_formatted);
 	size_t log_folder_path_len = strlen(cfg_p->log_folder_path);
-- 
2.43.0


From 395641c3fcd705b2635196a04c38a09ad2036358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:38 +0000
Subject: [PATCH 50/53] fix: message handlers: creation fails when the
 semaphore cannot be made (the worker would spin)

---
 src/ring/fixed_msg_queue_handler.c | 7 ++++++-
 src/ring/msg_queue_handler.c       | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ring/fixed_msg_queue_handler.c b/src/ring/fixed_msg_queue_handler.c
index d543cef..2604b69 100644
--- a/src/ring/fixed_msg_queue_handler.c
+++ b/src/ring/fixed_msg_queue_handler.c
@@ -94,7 +94,12 @@ fixed_msg_queue_handler fixed_msg_queue_handler_create(__in uint32_t max_msg_cap
 	memcpy(&handler->param, init_param_p, sizeof(fixed_msg_queue_handler_init_param_t));
 	handler->token_counter = 0;
 	handler->min_valid_token = 0;
-	portable_sem_init(&(handler->semaphore), 0, 0);
+	if (0 != portable_sem_init(&(handler->semaphore), 0, 0))
+	{
+		LOGE("error on create semaphore!");
+		free(handler);
+		return NULL;
+	}
 	handler->msg_queue_p = fixed_msg_queue_create(sizeof(fixed_handler_msg_t), max_msg_capacity);
 	if (!handler->msg_queue_p || 
 		0 != portable_thread_create(&(handler->thread_handler), NULL, thread_fun_handle_msg, handler))
diff --git a/src/ring/msg_queue_handler.c b/src/ring/msg_queue_handler.c
index 9ccc864..3cc079e 100644
--- a/src/ring/msg_queue_handler.c
+++ b/src/ring/msg_queue_handler.c
@@ -128,7 +128,12 @@ msg_queue_handler msg_queue_handler_create(__in uint32_t queue_buf_size,
 	}
 	handler->flag2exit = false;
 	memcpy(&(handler->param), param_p, sizeof(msg_queue_handler_init_param_t));
-	portable_sem_init(&(handler->semaphore), 0, 0);
+	if (0 != portable_sem_init(&(handler->semaphore), 0, 0))
+	{
+		LOGE("error on create semaphore!");
+		free(handler);
+		return NULL;
+	}
 	handler->msg_queue_p = msg_queue_create(queue_buf_size);
 	if (!handler->msg_queue_p ||
 		0 != portable_thread_create(&(handler->thread_handler), NULL, thread_worker_handle_msg, handler))
-- 
2.43.0


From ab865bee4b9cfeac28a2cc6284b45d14ec1515aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:51 +0000
Subject: [PATCH 51/53] fix: hashmap_put: a failed expansion of the table is no
 failed put (str_params freed the stored pair)

---
 src/data/hashmap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index 07a6081..c54c68f 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -133,10 +133,13 @@ static void expandIfNecessary(hashmap_t* map)
 	}
 	// Start off with a 0.33 load factor.
 	size_t newBucketCount = map->bucketCount << 1;
+	int saved_errno = errno;
 	Entry** newBuckets = (Entry**)(calloc(newBucketCount, sizeof(Entry*)));
 	if (newBuckets == NULL)
 	{
-		// Abort expansion.
+		// Abort expansion. The new entry is stored nevertheless:
+		// do not let the caller of hashmap_put take this for a failed put.
+		errno = saved_errno;
 		return;
 	}
 	// Move over existing entries.
-- 
2.43.0


From 3d992e1509a13b9ebdef76af483a67a1f085b9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:03 +0000
Subject: [PATCH 52/53] fix: str_params_create_str: fail cleanly when a pair
 cannot be stored

---
 src/mem/str_params.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index ff4b7c3..22c75b1 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -129,8 +129,19 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 			key = strdup(kvpair);
 			value = strdup("");
 		}
+		if (!key || !value)
+		{
+			goto label_err_pair;
+		}
+		int saved_errno = errno;
+		errno = 0;
 		/* we replaced a value */
 		old_val = hashmap_put(parms->map, key, value);
+		if (!old_val && errno == ENOMEM)
+		{
+			goto label_err_pair;
+		}
+		errno = saved_errno;
 		RELEASE_OWNERSHIP(value);
 		if (old_val)
 		{
@@ -145,6 +156,12 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 		items++;
 	label_next_pair:
 		kvpair = strtok_r(NULL, parms->delimiter, &tmpstr);
+		continue;
+	label_err_pair:
+		free(key);
+		free(value);
+		free(str);
+		goto label_err_strdup;
 	}
 	if (!items)
 	{
-- 
2.43.0


From 55b35f8f96a13050f36ff0cec168e285909d25ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:27 +0000
Subject: [PATCH 53/53] fix: thpool_init: fail cleanly when a thread cannot be
 started (it waited forever)

---
 src/thread/thpool.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 4acaaa6..c27d351 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -179,17 +179,26 @@ struct thpool_* thpool_init(int num_threads){
 	/* Thread init */
 	int n;
 	for (n=0; n<num_threads; n++){
-		thread_init(thpool_p, &thpool_p->threads[n], n);
+		if (thread_init(thpool_p, &thpool_p->threads[n], n) != 0) {
+			err("thpool_init(): Could not create a thread\n");
+			break;
+		}
 #if THPOOL_DEBUG
 			printf("THPOOL_DEBUG: Created thread %d in pool \n", n);
 #endif
 	}
 
 	/* Wait for threads to initialize */
-	while (thpool_p->num_threads_alive != num_threads) {
+	while (thpool_p->num_threads_alive != n) {
 		usleep(1000);
 	}
 
+	/* Not all of them could be started: undo */
+	if (n != num_threads) {
+		thpool_destroy(thpool_p);
+		return NULL;
+	}
+
 	return thpool_p;
 }
 
@@ -339,7 +348,11 @@ static int thread_init (thpool_* thpool_p, struct thread** thread_p, int id){
 	(*thread_p)->thpool_p = thpool_p;
 	(*thread_p)->id       = id;
 
-	pthread_create(&(*thread_p)->pthread, NULL, (void * (*)(void *)) thread_do, (*thread_p));
+	if (pthread_create(&(*thread_p)->pthread, NULL, (void * (*)(void *)) thread_do, (*thread_p)) != 0){
+		free(*thread_p);
+		*thread_p = NULL;
+		return -1;
+	}
 	pthread_detach((*thread_p)->pthread);
 	return 0;
 }
-- 
2.43.0

