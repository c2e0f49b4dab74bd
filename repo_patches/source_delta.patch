From 946b3999b348d0e74ab90870965aae7c5781e2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 01/40] fix: refuse map capacities that cannot be rounded up to
 a power of two

sc_map_init_*() with a capacity above 2^31 rounded it up to zero and succeeded,
later lookups then read outside of the one element allocation.
---
 map/sc_map.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/map/sc_map.c b/map/sc_map.c
index c81b124..f3ecf2c 100644
--- a/map/sc_map.c
+++ b/map/sc_map.c
@@ -107,6 +107,11 @@
 		}                                                              \
 		v++;                                                           \
                                                                                \
+		/* No power of two >= cap can be represented */                \
+		if (v == 0) {                                                  \
+			return NULL;                                           \
+		}                                                              \
+                                                                               \
 		*cap = v;                                                      \
 		t = sc_map_calloc(v + 1, sizeof(*t));                          \
 		return t ? &t[1] : NULL;                                       \
-- 
2.43.0


From 85a7cf162462103cf96116aa8bdacb7efc4b44fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 02/40] fix: make buffer bounds checks immune to 64-bit
 overflow

Positions or (decoded) lengths close to UINT64_MAX wrapped around in
'pos + len > wpos', passed the check and accessed memory outside of the
buffer, e.g. sc_buf_get_str() on untrusted bytes.
---
 buffer/sc_buf.c | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index f04acc2..cb4a09d 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -39,6 +39,11 @@
 
 #define NULL_LEN SC_BUF_MAX
 
+static bool sc_buf_fits(uint64_t pos, uint64_t len, uint64_t end)
+{
+	return pos <= end && len <= end - pos;
+}
+
 bool sc_buf_init(struct sc_buf *b, uint64_t cap)
 {
 	void *m = NULL;
@@ -101,13 +106,14 @@ bool sc_buf_reserve(struct sc_buf *b, uint64_t len)
 	uint64_t size;
 	void *m;
 
-	if (b->wpos + len > b->cap) {
-		if (b->ref) {
+	if (!sc_buf_fits(b->wpos, len, b->cap)) {
+		if (b->ref || b->cap >= SC_BUF_MAX - 4096 ||
+		    len > SC_BUF_MAX - b->cap) {
 			goto err;
 		}
 
 		size = ((b->cap + len + 4095) / 4096) * 4096;
-		if (size > b->limit || b->cap >= SC_BUF_MAX - 4096) {
+		if (size > b->limit) {
 			goto err;
 		}
 
@@ -253,7 +259,7 @@ void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
 
 static uint16_t sc_buf_peek_8_pos(struct sc_buf *b, uint64_t pos, uint8_t *val)
 {
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -269,7 +275,7 @@ static uint16_t sc_buf_peek_16_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -287,7 +293,7 @@ static uint64_t sc_buf_peek_32_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -306,7 +312,7 @@ static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -325,7 +331,7 @@ static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
 static uint64_t sc_buf_set_8_pos(struct sc_buf *b, uint64_t pos,
 				 const uint8_t *val)
 {
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -340,7 +346,7 @@ static uint64_t sc_buf_set_16_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -358,7 +364,7 @@ static uint64_t sc_buf_set_32_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -378,7 +384,7 @@ static uint64_t sc_buf_set_64_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -452,7 +458,7 @@ uint64_t sc_buf_peek_64(struct sc_buf *b)
 uint64_t sc_buf_peek_data(struct sc_buf *b, uint64_t pos, unsigned char *dest,
 			  uint64_t len)
 {
-	if (b->err != 0 || (pos + len > b->wpos)) {
+	if (b->err != 0 || !sc_buf_fits(pos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		memset(dest, 0, len);
 		return 0;
@@ -506,7 +512,7 @@ void sc_buf_set_64(struct sc_buf *b, uint64_t val)
 uint64_t sc_buf_set_data(struct sc_buf *b, uint64_t offset, const void *src,
 			 uint64_t len)
 {
-	if (b->err != 0 || (offset + len > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(offset, len, b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -585,7 +591,7 @@ const char *sc_buf_get_str(struct sc_buf *b)
 		return NULL;
 	}
 
-	if (b->rpos + len + 1 > b->wpos) {
+	if (len == UINT64_MAX || !sc_buf_fits(b->rpos, len + 1, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
@@ -604,7 +610,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 		return NULL;
 	}
 
-	if (b->rpos + len > b->wpos) {
+	if (!sc_buf_fits(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
@@ -617,7 +623,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 
 void sc_buf_get_data(struct sc_buf *b, void *dest, uint64_t len)
 {
-	if (b->rpos + len > b->wpos) {
+	if (!sc_buf_fits(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		memset(dest, 0, len);
 		return;
-- 
2.43.0


From 46a8f2f74886ad02e955fc7c61e46ff0a5d2e518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 03/40] fix: reject strings without terminator in
 sc_buf_get_str()

Strings are stored as [length][bytes]['\0']. A corrupt buffer could make
sc_buf_get_str() return a pointer to bytes without the terminator.
---
 buffer/sc_buf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index cb4a09d..5599a23 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -597,6 +597,11 @@ const char *sc_buf_get_str(struct sc_buf *b)
 	}
 
 	str = (char *) b->mem + b->rpos;
+	if (str[len] != '\0') {
+		b->err |= SC_BUF_CORRUPT;
+		return NULL;
+	}
+
 	b->rpos += len + 1;
 
 	return str;
-- 
2.43.0


From 64c1e50954e15a993472636ac4130b82459c0fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 04/40] fix: reserve space for the terminator in
 sc_buf_put_fmt()

If remaining space was exactly 'length prefix + formatted string', the
buffer was not expanded for the terminating byte and out of memory was
reported for a buffer that can grow.
---
 buffer/sc_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 5599a23..7c4a0b8 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -755,7 +755,7 @@ void sc_buf_put_fmt(struct sc_buf *b, const char *fmt, ...)
 	wr = (uint64_t) rc;
 
 	if (wr >= quota) {
-		if (!sc_buf_reserve(b, wr + len_bytes)) {
+		if (!sc_buf_reserve(b, len_bytes + wr + 1)) {
 			return;
 		}
 
-- 
2.43.0


From 65d5856aba66dc6c28bee7768621949e8291ee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 05/40] fix: do not consume source bytes that sc_buf_move()
 could not copy

If dest has an error flag set, nothing is written to it but the bytes were
dropped from the source buffer.
---
 buffer/sc_buf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 7c4a0b8..3cbf3cb 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -251,10 +251,11 @@ void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
 	uint64_t quota = sc_buf_quota(dest);
 	uint64_t size = sc_buf_size(src);
 	uint64_t copy = quota < size ? quota : size;
+	uint64_t pos = dest->wpos;
 	void *from = &src->mem[src->rpos];
 
 	sc_buf_put_raw(dest, from, copy);
-	src->rpos += copy;
+	src->rpos += dest->wpos - pos;
 }
 
 static uint16_t sc_buf_peek_8_pos(struct sc_buf *b, uint64_t pos, uint8_t *val)
-- 
2.43.0


From bca2dbbb8704bf84036b8d1f52a0c3204908b6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 06/40] fix: sc_buf_shrink() must not grow a buffer or
 reallocate borrowed memory

Desired size is rounded up to 4096, so shrinking a smaller buffer made it
larger (even above its limit). For SC_BUF_REF buffers, memory that does not
belong to the buffer was passed to realloc().
---
 buffer/sc_buf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 3cbf3cb..754b59d 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -139,11 +139,14 @@ bool sc_buf_shrink(struct sc_buf *b, uint64_t len)
 
 	sc_buf_compact(b);
 
-	if (len > b->cap || b->wpos >= len) {
+	if (b->ref || len > b->cap || b->wpos >= len) {
 		return true;
 	}
 
 	len = ((len + 4095) / 4096) * 4096;
+	if (len >= b->cap) {
+		return true;
+	}
 
 	tmp = sc_buf_realloc(b->mem, len);
 	if (tmp == NULL) {
-- 
2.43.0


From 9c634760078440915585f0d3b584ad99bb60bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 07/40] fix: reset both positions when sc_buf_put_text() fails

Only write position was reset. If some bytes had been read before, read
position was left beyond it: sc_buf_size() underflowed and a following
sc_buf_compact() copied out of bounds.
---
 buffer/sc_buf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 754b59d..3f79d3c 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -825,7 +825,8 @@ void sc_buf_put_text(struct sc_buf *b, const char *fmt, ...)
 	return;
 
 clean_up:
-	sc_buf_set_wpos(b, 0);
+	b->rpos = 0;
+	b->wpos = 0;
 }
 
 void sc_buf_put_blob(struct sc_buf *b, const void *ptr, uint64_t len)
-- 
2.43.0


From c2d2ba44dd9c27de9e22b2f94b2939fc07c47a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 08/40] fix: array delete macros must not capture a caller
 variable named idx

---
 array/sc_array.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/array/sc_array.h b/array/sc_array.h
index cefca91..7bfcab4 100644
--- a/array/sc_array.h
+++ b/array/sc_array.h
@@ -148,12 +148,12 @@
  */
 #define sc_array_del(a, i)                                                     \
 	do {                                                                   \
-                size_t idx = (i);                                              \
-		assert(idx < (a)->size);                                       \
+		const size_t _idx = (i);                                       \
+		assert(_idx < (a)->size);                                      \
                                                                                \
-		const size_t _cnt = (a)->size - (idx) - 1;                     \
+		const size_t _cnt = (a)->size - _idx - 1;                      \
 		if (_cnt > 0) {                                                \
-			memmove(&((a)->elems[idx]), &((a)->elems[idx + 1]),    \
+			memmove(&((a)->elems[_idx]), &((a)->elems[_idx + 1]),  \
 				_cnt * sizeof(*((a)->elems)));                 \
 		}                                                              \
 		(a)->size--;                                                   \
@@ -171,9 +171,9 @@
  */
 #define sc_array_del_unordered(a, i)                                           \
 	do {                                                                   \
-                size_t idx = (i);                                              \
-		assert(idx < (a)->size);                                       \
-		(a)->elems[idx] = (a)->elems[(--(a)->size)];                   \
+		const size_t _idx = (i);                                       \
+		assert(_idx < (a)->size);                                      \
+		(a)->elems[_idx] = (a)->elems[(--(a)->size)];                  \
 	} while (0)
 
 /**
-- 
2.43.0


From 853b964c1d7ebc42e52db134099dd5dffc0c3cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 09/40] fix: a queue add that needs no memory must succeed
 after an earlier add failed

---
 queue/sc_queue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queue/sc_queue.h b/queue/sc_queue.h
index fa50512..e173dfe 100644
--- a/queue/sc_queue.h
+++ b/queue/sc_queue.h
@@ -68,6 +68,7 @@
 		size_t _pos = ((q)->last + 1) & ((q)->cap - 1);                \
 		void *_dst, *_src;                                             \
                                                                                \
+		(q)->oom = ((q)->elems == NULL);                               \
 		if (_pos == (q)->first) {                                      \
 			if ((q)->cap > SC_QUEUE_MAX / 2ul) {                   \
 				(q)->oom = true;                               \
-- 
2.43.0


From ff6490cdd85c7abf4032ebf7e53f812c231342f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 10/40] fix: a failed sc_heap_add() must not change the heap's
 size

---
 heap/sc_heap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heap/sc_heap.c b/heap/sc_heap.c
index 984223d..35ad136 100644
--- a/heap/sc_heap.c
+++ b/heap/sc_heap.c
@@ -82,7 +82,7 @@ bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
 	size_t i, cap, m;
 	void *exp;
 
-	if (++h->size >= h->cap) {
+	if (h->size + 1 >= h->cap) {
 		cap = h->cap != 0 ? h->cap * 2 : 4;
 		m = cap * 2 * sizeof(*h->elems);
 
@@ -95,7 +95,7 @@ bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
 		h->cap = cap;
 	}
 
-	i = h->size;
+	i = ++h->size;
 	while (i != 1 && key < h->elems[i / 2].key) {
 		h->elems[i] = h->elems[i / 2];
 		i /= 2;
-- 
2.43.0


From 36f03312442f8fb720491c9f12ec865106ed95a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 11/40] fix: timers added after an advance shorter than a tick
 must not fire early

---
 timer/sc_timer.c | 10 ++++++++--
 timer/sc_timer.h |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/timer/sc_timer.c b/timer/sc_timer.c
index 81e02e9..03406e9 100644
--- a/timer/sc_timer.c
+++ b/timer/sc_timer.c
@@ -45,6 +45,7 @@ void sc_timer_init(struct sc_timer *t, uint64_t timestamp)
 {
 	*t = (struct sc_timer){
 		.timestamp = timestamp,
+		.now = timestamp,
 	};
 }
 
@@ -54,6 +55,7 @@ void sc_timer_term(struct sc_timer *t)
 
 	*t = (struct sc_timer){
 		.timestamp = t->timestamp,
+		.now = t->now,
 	};
 }
 
@@ -114,7 +116,9 @@ static bool expand(struct sc_timer *t)
 uint64_t sc_timer_add(struct sc_timer *t, uint64_t timeout, uint64_t type,
 		      void *data)
 {
-	const uint32_t offset = (uint32_t) (timeout / TICK + t->head);
+	// 'timestamp' is the last processed tick, it might be behind 'now'.
+	const uint64_t delay = timeout + (t->now - t->timestamp);
+	const uint32_t offset = (uint32_t) (delay / TICK + t->head);
 	const uint32_t pos = offset & (WHEEL_COUNT - 1);
 	uint64_t id;
 	uint32_t seq, index, wheel_pos;
@@ -135,7 +139,7 @@ uint64_t sc_timer_add(struct sc_timer *t, uint64_t timeout, uint64_t type,
 	assert(t->list[index].timeout == SC_TIMER_INVALID);
 
 out:
-	t->list[index].timeout = timeout + t->timestamp;
+	t->list[index].timeout = delay + t->timestamp;
 	t->list[index].type = type;
 	t->list[index].data = data;
 
@@ -171,6 +175,8 @@ uint64_t sc_timer_timeout(struct sc_timer *t, uint64_t timestamp, void *arg,
 	uint32_t wheels = (uint32_t) (sc_timer_min(time / TICK, WHEEL_COUNT));
 	struct sc_timer_data *item;
 
+	t->now = timestamp;
+
 	if (wheels == 0) {
 		return sc_timer_min(TICK - time, TICK);
 	}
diff --git a/timer/sc_timer.h b/timer/sc_timer.h
index a7605f2..fc5b197 100644
--- a/timer/sc_timer.h
+++ b/timer/sc_timer.h
@@ -56,6 +56,7 @@ struct sc_timer_data {
 
 struct sc_timer {
 	uint64_t timestamp;
+	uint64_t now;
 	uint32_t head;
 	uint32_t wheel;
 	struct sc_timer_data *list;
-- 
2.43.0


From 1ec29e7b6e0e18ad33c6ffd7acc6ff4f11a89f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 12/40] fix: sc_str_replace() must not loop endlessly on an
 empty pattern

---
 string/sc_str.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/string/sc_str.c b/string/sc_str.c
index 4d378b9..4925e5b 100644
--- a/string/sc_str.c
+++ b/string/sc_str.c
@@ -367,6 +367,11 @@ bool sc_str_replace(char **str, const char *replace, const char *with)
 	rep_len = strlen(replace);
 	with_len = strlen(with);
 
+	// Empty pattern does not match anything.
+	if (rep_len == 0) {
+		return true;
+	}
+
 	if (rep_len >= UINT32_MAX || with_len >= UINT32_MAX) {
 		return false;
 	}
-- 
2.43.0


From 58eff3a3b570990633c48909456ecb3539b8f254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 13/40] fix: truncate over-long lines of INI files instead of
 splitting them

---
 ini/sc_ini.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/ini/sc_ini.c b/ini/sc_ini.c
index c0901b7..092f92e 100644
--- a/ini/sc_ini.c
+++ b/ini/sc_ini.c
@@ -141,7 +141,26 @@ int sc_ini_parse(void *arg, sc_ini_on_item cb, void *arg1,
 
 static char *file_line(void *p, char *buf, size_t size)
 {
-	return fgets(buf, (int) size, (FILE *) p);
+	int c;
+	size_t len = 0;
+	FILE *file = p;
+
+	c = getc(file);
+	if (c == EOF) {
+		return NULL;
+	}
+
+	// Lines longer than 'size' are truncated, rest of the line is skipped.
+	while (c != EOF && c != '\n') {
+		if (len < size) {
+			buf[len++] = (char) c;
+		}
+		c = getc(file);
+	}
+
+	buf[len] = '\0';
+
+	return buf;
 }
 
 static char *string_line(void *p, char *buf, size_t size)
-- 
2.43.0


From f45d621bb5b72a5f0996af18813dcceac43e37eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 14/40] fix: do not look for user info and port of a URI beyond
 its authority

---
 uri/sc_uri.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/uri/sc_uri.c b/uri/sc_uri.c
index 4c0ce36..9328473 100644
--- a/uri/sc_uri.c
+++ b/uri/sc_uri.c
@@ -54,7 +54,7 @@ struct sc_uri *sc_uri_create(const char *str)
 
 	char *scheme, *userinfo = "", *host = "", *port = "";
 	char *path, *query = "", *fragment = "";
-	char *ptr, *dest, *parse_end;
+	char *ptr, *end, *dest, *parse_end;
 	char *pos = (char *) str;
 	struct sc_uri *uri;
 
@@ -69,15 +69,16 @@ struct sc_uri *sc_uri_create(const char *str)
 	if (*pos == '/' && *(pos + 1) == '/') {
 		authority_len = 2;
 		pos += authority_len;
+		end = pos + strcspn(pos, "/?#"); // End of the authority.
 
-		ptr = strchr(pos, '@');
+		ptr = memchr(pos, '@', end - pos);
 		if (ptr != NULL) {
 			userinfo = pos;
 			userinfo_len = ptr - pos + strlen("@");
 			pos = ptr + 1;
 		}
 
-		ptr = pos + strcspn(pos, *pos == '[' ? "]" : ":/?#");
+		ptr = pos + strcspn(pos, *pos == '[' ? "]/?#" : ":/?#");
 		host = pos;
 		host_len = ptr - pos + (*host == '[');
 		pos = host + host_len;
@@ -86,9 +87,9 @@ struct sc_uri *sc_uri_create(const char *str)
 			return NULL;
 		}
 
-		ptr = strchr(pos, ':');
-		if (ptr != NULL) {
-			if (*(ptr + 1) == '\0') {
+		ptr = pos;
+		if (ptr != end) {
+			if (*ptr != ':' || *(ptr + 1) == '\0') {
 				return NULL;
 			}
 
-- 
2.43.0


From 0016b97fbb381b93d9f24666d199db531ca0ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 15/40] fix: refuse URI ports that are not a number up to 65535

---
 uri/sc_uri.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uri/sc_uri.c b/uri/sc_uri.c
index 9328473..aefeff7 100644
--- a/uri/sc_uri.c
+++ b/uri/sc_uri.c
@@ -89,13 +89,13 @@ struct sc_uri *sc_uri_create(const char *str)
 
 		ptr = pos;
 		if (ptr != end) {
-			if (*ptr != ':' || *(ptr + 1) == '\0') {
+			if (*ptr != ':' || *(ptr + 1) < '0' || *(ptr + 1) > '9') {
 				return NULL;
 			}
 
 			errno = 0;
 			val = strtoul(ptr + 1, &parse_end, 10);
-			if (errno != 0 || val > 65536) {
+			if (errno != 0 || val > 65535 || parse_end != end) {
 				return NULL;
 			}
 
-- 
2.43.0


From e8309947fa50b5149c66285d3c990908775920f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 16/40] fix: a question mark in the fragment of a URI does not
 start a query

---
 uri/sc_uri.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/uri/sc_uri.c b/uri/sc_uri.c
index aefeff7..5f80233 100644
--- a/uri/sc_uri.c
+++ b/uri/sc_uri.c
@@ -109,9 +109,8 @@ struct sc_uri *sc_uri_create(const char *str)
 	path_len = strcspn(path, "?#");
 	pos = path + path_len;
 
-	ptr = strchr(pos, '?');
-	if (ptr != NULL) {
-		query = ptr;
+	if (*pos == '?') {
+		query = pos;
 		query_len = strcspn(query, "#");
 		pos = query + query_len;
 	}
-- 
2.43.0


From 161c855cd4897284888eb18643d75f71f6e5ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 17/40] fix: start the RC4 key schedule from the identity
 permutation

---
 sc/sc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sc/sc.c b/sc/sc.c
index e47cad8..7ef10de 100644
--- a/sc/sc.c
+++ b/sc/sc.c
@@ -46,7 +46,9 @@ void sc_rand_init(struct sc_rand *r, const unsigned char *init)
 
 	*r = (struct sc_rand){0};
 
-	memcpy(r->init, init, 256);
+	for (int i = 0; i < 256; i++) {
+		r->init[i] = (unsigned char) i;
+	}
 
 	for (int i = 0; i < 256; i++) {
 		r->j += r->init[i] + init[i];
-- 
2.43.0


From 723ac3cb300862485d7a9bc82082c4df2b16fc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 18/40] fix: refuse negative sizes, whose multiplication could
 overflow

---
 sc/sc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sc/sc.c b/sc/sc.c
index 7ef10de..03e0b79 100644
--- a/sc/sc.c
+++ b/sc/sc.c
@@ -143,7 +143,7 @@ int64_t sc_size_to_bytes(const char *buf)
 
 	errno = 0;
 	val = strtoll(buf, &parse_end, 10);
-	if (errno != 0 || parse_end == buf) {
+	if (errno != 0 || parse_end == buf || val < 0) {
 		return -1;
 	}
 
-- 
2.43.0


From e6400a06a40512044afb2e96489f4ff1907c343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 19/40] fix: accept spaces between number and unit of a size,
 as documented

---
 sc/sc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sc/sc.c b/sc/sc.c
index 03e0b79..e92bb35 100644
--- a/sc/sc.c
+++ b/sc/sc.c
@@ -147,6 +147,11 @@ int64_t sc_size_to_bytes(const char *buf)
 		return -1;
 	}
 
+	// Number and unit may be separated, e.g. "1 KB"
+	while (*parse_end == ' ') {
+		parse_end++;
+	}
+
 	count = (int) (end - parse_end);
 
 	switch (count) {
-- 
2.43.0


From 9db5a6b17569fce2a2e3c4609d581b2dace8c2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 20/40] fix: sc_signal_vsnprintf() must not write to a buffer
 of size zero

---
 signal/sc_signal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 030ac75..46487e3 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -103,7 +103,9 @@ int sc_signal_vsnprintf(char *buf, size_t sz, const char *fmt, va_list va)
 
 		switch (*pos) {
 		case '\0': {
-			*out = '\0';
+			if (sz != 0) {
+				*out = '\0';
+			}
 			return (int) (out - buf);
 		}
 		case '%': {
-- 
2.43.0


From 9682edad76f559c2cc8495d41c59a802ba74b74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 21/40] fix: avoid overflow when formatting INT64_MIN in signal
 handlers

---
 signal/sc_signal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 46487e3..9c258f7 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -133,7 +133,7 @@ int sc_signal_vsnprintf(char *buf, size_t sz, const char *fmt, va_list va)
 
 				} else if (*pos == 'd') {
 					i = get_int(va, pos - orig);
-					u = (uint64_t) (i < 0 ? -i : i);
+					u = i < 0 ? 0 - (uint64_t) i : (uint64_t) i;
 
 					do {
 						c = (char) ('0' + (u % 10));
-- 
2.43.0


From 4097a1f43b12df5070ad6132dff9d5ed6e205d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 22/40] fix: two shutdown signals at once must not both be
 taken for the first one

---
 signal/sc_signal.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 9c258f7..e226e14 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -398,13 +398,13 @@ static void sc_signal_on_shutdown(int sig)
 
 	sc_signal_log(fd, buf, sizeof(buf), "Recv : %s, (%d) \n", str, sig);
 
-	if (sc_signal_will_shutdown != 0) {
+	// Other shutdown signal might interrupt this handler, test and set has to
+	// be atomic.
+	if (__sync_lock_test_and_set(&sc_signal_will_shutdown, 1) != 0) {
 		sc_signal_log(fd, buf, sizeof(buf), "Forcing shut down! \n");
 		sc_exit(1);
 	}
 
-	sc_signal_will_shutdown = 1;
-
 	if (sc_signal_shutdown_fd != -1) {
 		sc_signal_log(fd, buf, sizeof(buf),
 			      "Sending shutdown command. \n");
-- 
2.43.0


From d5727224ece9fa658c09498217fc42e64bfc373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 23/40] fix: count line headers toward the log file size limit

---
 logger/sc_log.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index bd5da24..244198a 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -349,7 +349,7 @@ static int sc_log_print_header(FILE *fp, enum sc_log_level level)
 		return -1;
 	}
 
-	return 0;
+	return rc;
 }
 
 static int sc_log_stdout(enum sc_log_level level, const char *fmt, va_list va)
@@ -372,10 +372,10 @@ static int sc_log_stdout(enum sc_log_level level, const char *fmt, va_list va)
 
 static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 {
-	int rc, size;
+	int header, size;
 
-	rc = sc_log_print_header(sc_log.fp, level);
-	if (rc < 0) {
+	header = sc_log_print_header(sc_log.fp, level);
+	if (header < 0) {
 		return -1;
 	}
 
@@ -384,7 +384,7 @@ static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 		return -1;
 	}
 
-	sc_log.file_size += size;
+	sc_log.file_size += (size_t) header + (size_t) size;
 
 	if (sc_log.file_size > (size_t) SC_LOG_FILE_SIZE) {
 		fclose(sc_log.fp);
@@ -398,7 +398,7 @@ static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 		sc_log.file_size = 0;
 	}
 
-	return rc;
+	return 0;
 }
 
 int sc_log_log(enum sc_log_level level, const char *fmt, ...)
-- 
2.43.0


From 520311be35f3563ac86f51b2e49c3bd827795f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 24/40] fix: flush every byte of an unaligned range

---
 memory-map/sc_mmap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memory-map/sc_mmap.c b/memory-map/sc_mmap.c
index 249ed64..2304842 100644
--- a/memory-map/sc_mmap.c
+++ b/memory-map/sc_mmap.c
@@ -316,9 +316,10 @@ int sc_mmap_term(struct sc_mmap *m)
 int sc_mmap_msync(struct sc_mmap *m, size_t offset, size_t len)
 {
 	int rc;
-	char *p = (char *) m->ptr + (offset & ~(m->page_size - 1));
+	size_t pad = offset & (m->page_size - 1);
+	char *p = (char *) m->ptr + (offset - pad);
 
-	rc = msync(p, len, MS_SYNC);
+	rc = msync(p, len + pad, MS_SYNC);
 	if (rc != 0) {
 		strncpy(m->err, strerror(errno), sizeof(m->err) - 1);
 	}
-- 
2.43.0


From e3e36af7b89113d84d6277c1c09de39823461810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 25/40] fix: apply the blocking mode to unix domain sockets

---
 socket/sc_sock.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index f44d7c2..e458a98 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -349,6 +349,11 @@ static int sc_sock_bind(struct sc_sock *s, const char *host, const char *port)
 
 		s->fdt.fd = fd;
 
+		rc = sc_sock_set_blocking(s, s->blocking);
+		if (rc != 0) {
+			goto error_unix;
+		}
+
 		rc = sc_sock_bind_unix(s, host);
 		if (rc != 0) {
 			goto error_unix;
@@ -458,6 +463,11 @@ static int sc_sock_connect_unix(struct sc_sock *s, const char *addr)
 
 	s->fdt.fd = fd;
 
+	rc = sc_sock_set_blocking(s, s->blocking);
+	if (rc != 0) {
+		goto err;
+	}
+
 	if (len >= sizeof(un.sun_path)) {
 		errno = EINVAL;
 		goto err;
-- 
2.43.0


From 7069a2d29dc841b99b2fadc3f9ae17cfcfb1942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 26/40] fix: set the error text when changing the blocking mode
 fails

---
 socket/sc_sock.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index e458a98..c866eb0 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -228,11 +228,19 @@ int sc_sock_set_blocking(struct sc_sock *s, bool blocking)
 
 	flags = fcntl(s->fdt.fd, F_GETFL, 0);
 	if (flags == -1) {
-		return -1;
+		goto error;
 	}
 
 	flags = blocking ? (flags & ~O_NONBLOCK) : (flags | O_NONBLOCK);
-	return (fcntl(s->fdt.fd, F_SETFL, flags) == 0) ? 0 : -1;
+	if (fcntl(s->fdt.fd, F_SETFL, flags) != 0) {
+		goto error;
+	}
+
+	return 0;
+
+error:
+	sc_sock_errstr(s, 0);
+	return -1;
 }
 
 #endif
-- 
2.43.0


From 8c2b5d18b39006a8162898ccba6e88d3dc2312f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 27/40] fix: convert milliseconds of socket timeouts to
 microseconds

---
 socket/sc_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index c866eb0..344c21b 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -289,7 +289,7 @@ int sc_sock_set_rcvtimeo(struct sc_sock *s, int ms)
 	void *p;
 
 	struct timeval tv = {
-		.tv_usec = ms % 1000,
+		.tv_usec = (ms % 1000) * 1000,
 		.tv_sec = ms / 1000,
 	};
 
@@ -309,7 +309,7 @@ int sc_sock_set_sndtimeo(struct sc_sock *s, int ms)
 	void *p;
 
 	struct timeval tv = {
-		.tv_usec = ms % 1000,
+		.tv_usec = (ms % 1000) * 1000,
 		.tv_sec = ms / 1000,
 	};
 
-- 
2.43.0


From 1cd370ec52c8c5f586218546ba5423a78cab8dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 28/40] fix: refuse unix socket paths which do not fit instead
 of cutting them

---
 socket/sc_sock.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 344c21b..c1e229c 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -330,6 +330,11 @@ static int sc_sock_bind_unix(struct sc_sock *s, const char *host)
 		.sun_family = AF_UNIX,
 	};
 
+	if (strlen(host) >= sizeof(addr.sun_path)) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	strncpy(addr.sun_path, host, sizeof(addr.sun_path) - 1);
 	sc_unlink(host);
 
-- 
2.43.0


From 4e9bfacb624b9ce981c24544a2d6cb48f5f8b91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 29/40] fix: do not read uninitialised memory for the address
 of unnamed unix sockets

---
 socket/sc_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index c1e229c..4856ea9 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -838,7 +838,7 @@ static const char *sc_sock_print_storage(struct sc_sock *sock,
 const char *sc_sock_local_str(struct sc_sock *sock, char *buf, size_t len)
 {
 	int rc;
-	struct sockaddr_storage st;
+	struct sockaddr_storage st = {0};
 	socklen_t storage_len = sizeof(st);
 
 	rc = getsockname(sock->fdt.fd, (struct sockaddr *) &st, &storage_len);
@@ -854,7 +854,7 @@ const char *sc_sock_local_str(struct sc_sock *sock, char *buf, size_t len)
 const char *sc_sock_remote_str(struct sc_sock *sock, char *buf, size_t len)
 {
 	int rc;
-	struct sockaddr_storage st;
+	struct sockaddr_storage st = {0};
 	socklen_t storage_len = sizeof(st);
 
 	rc = getpeername(sock->fdt.fd, (struct sockaddr *) &st, &storage_len);
-- 
2.43.0


From d8912f90c14f7fe2ada30c393fd6df65e05f7ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 30/40] fix: a failed sc_thread_start() must not leave an id to
 join, errors are -1

---
 thread/sc_thread.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thread/sc_thread.c b/thread/sc_thread.c
index 7dd1db1..0f2de00 100644
--- a/thread/sc_thread.c
+++ b/thread/sc_thread.c
@@ -134,13 +134,15 @@ int sc_thread_start(struct sc_thread *t, void *(*fn)(void *), void *arg)
 
 	rc = pthread_create(&t->id, &attr, fn, arg);
 	if (rc != 0) {
+		// pthread_create() may leave an invalid id behind on failure.
+		t->id = 0;
 		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
 	}
 
 	// This may only fail with EINVAL.
 	pthread_attr_destroy(&attr);
 
-	return rc;
+	return rc != 0 ? -1 : 0;
 }
 
 int sc_thread_join(struct sc_thread *t, void **ret)
@@ -164,7 +166,7 @@ out:
 		*ret = val;
 	}
 
-	return rc;
+	return rc != 0 ? -1 : 0;
 }
 
 #endif
-- 
2.43.0


From 89a05d2643d64ce20499a6fd7686f36ad63f34d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 31/40] fix: sc_cond_term() returns a negative value on error,
 as documented

---
 condition/sc_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/condition/sc_cond.c b/condition/sc_cond.c
index d332c40..239536a 100644
--- a/condition/sc_cond.c
+++ b/condition/sc_cond.c
@@ -168,7 +168,7 @@ int sc_cond_term(struct sc_cond *c)
 
 	c->init = false;
 
-	return errno;
+	return errno != 0 ? -1 : 0;
 }
 
 void sc_cond_signal(struct sc_cond *c, void *data)
-- 
2.43.0


From fed53800b6b92144de01d7e5078a5311c8bf0c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 32/40] fix: refuse notify socket addresses which do not fit
 instead of cutting them

---
 socket/sc_sock.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 4856ea9..960a023 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -177,6 +177,12 @@ int sc_sock_notify_systemd(const char *msg)
 		return -1;
 	}
 
+	// Do not send the message to some other socket by cutting the address.
+	if (strlen(s) >= sizeof(addr.sun_path)) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	fd = socket(AF_UNIX, SOCK_DGRAM, 0);
 	if (fd < 0) {
 		return -1;
-- 
2.43.0


From c7b83b90ca7fc15630eb4e4f6d86c3743a1e7497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 33/40] fix: scale multiplexed counters up by the time they did
 not run

---
 perf/sc_perf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perf/sc_perf.c b/perf/sc_perf.c
index 14a8320..09ec512 100644
--- a/perf/sc_perf.c
+++ b/perf/sc_perf.c
@@ -129,7 +129,7 @@ static void sc_read(struct sc_perf_item *items, size_t size)
 			items[i].active = n;
 		}
 
-		items[i].value += (double) fmt.value * n;
+		items[i].value += (double) fmt.value / n;
 	}
 }
 
-- 
2.43.0


From b75cb437d415a5ef6712232b8b721c1cf2509455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 34/40] fix: starting a running measurement again must not lose
 elapsed time

---
 perf/sc_perf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/perf/sc_perf.c b/perf/sc_perf.c
index 09ec512..3174c12 100644
--- a/perf/sc_perf.c
+++ b/perf/sc_perf.c
@@ -171,6 +171,10 @@ void sc_perf_start(void)
 
 	sc_perf_assert(prctl(PR_TASK_PERF_EVENTS_ENABLE) == 0);
 
+	if (running) {
+		return;
+	}
+
 	start = sy_time_nano();
 	running = 1;
 }
-- 
2.43.0


From bfd29303d1350c9419a5115be0e83f421f10f975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 35/40] fix: sleeps longer than INT64_MAX milliseconds must not
 become negative

---
 time/sc_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/time/sc_time.c b/time/sc_time.c
index 03e00db..d945197 100644
--- a/time/sc_time.c
+++ b/time/sc_time.c
@@ -151,7 +151,7 @@ int sc_time_sleep(uint64_t millis)
 	int rc;
 	struct timespec t, rem;
 
-	rem.tv_sec = (time_t) millis / 1000;
+	rem.tv_sec = (time_t) (millis / 1000);
 	rem.tv_nsec = (long) (millis % 1000) * 1000000;
 
 	do {
-- 
2.43.0


From c83040232681ac5cf037498cc23b381a8e9168a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 36/40] fix: sc_log_init() returns a negative value when the
 mutex cannot be created

---
 logger/sc_log.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index 244198a..8649f06 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -182,11 +182,12 @@ int sc_log_init(void)
 	rc = sc_log_mutex_init(&sc_log.mtx);
 	if (rc != 0) {
 		errno = rc;
+		return -1;
 	}
 
 	sc_log.init = true;
 
-	return rc;
+	return 0;
 }
 
 int sc_log_term(void)
-- 
2.43.0


From 6f408f5a221cf07b8e55798960a06694968a7906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 37/40] fix: sc_log_set_file() sets errno when it refuses a
 file name for its length

---
 logger/sc_log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index 8649f06..a9120cd 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -281,6 +281,7 @@ int sc_log_set_file(const char *prev, const char *current)
 
 	if (strlen(prev) >= sizeof(sc_log.prev_file) - 1 ||
 	    strlen(current) >= sizeof(sc_log.current_file) - 1) {
+		errno = ENAMETOOLONG;
 		goto error;
 	}
 
-- 
2.43.0


From d934858db12bb797eecf12b7826f3c54daf29b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 38/40] fix: sc_queue_add_first() must evaluate the element
 before moving the front

---
 queue/sc_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queue/sc_queue.h b/queue/sc_queue.h
index e173dfe..2f4490c 100644
--- a/queue/sc_queue.h
+++ b/queue/sc_queue.h
@@ -236,8 +236,8 @@
 			break;                                                 \
 		}                                                              \
 		(q)->oom = false;                                              \
+		(q)->elems[((q)->first - 1) & ((q)->cap - 1)] = elem;          \
 		(q)->first = ((q)->first - 1) & ((q)->cap - 1);                \
-		(q)->elems[(q)->first] = elem;                                 \
 	} while (0)
 
 static inline size_t sc_queue_inc_first(size_t *first, size_t cap)
-- 
2.43.0


From e384fa33a25df6de15e987b7bd4123573887099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:59 +0000
Subject: [PATCH 39/40] fix: sc_str_append() must accept the string itself as
 the text

---
 string/sc_str.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/string/sc_str.c b/string/sc_str.c
index 4925e5b..448867d 100644
--- a/string/sc_str.c
+++ b/string/sc_str.c
@@ -207,7 +207,9 @@ bool sc_str_set_fmt(char **str, const char *fmt, ...)
 
 bool sc_str_append(char **str, const char *param)
 {
+	bool self;
 	size_t len, alloc;
+	uintptr_t off;
 	struct sc_str *m;
 
 	if (*str == NULL) {
@@ -219,12 +221,16 @@ bool sc_str_append(char **str, const char *param)
 	len = strlen(param);
 	alloc = sc_str_bytes(m->len + len);
 
+	// 'param' may be a part of the string itself, which realloc() may move.
+	off = (uintptr_t) param - (uintptr_t) m->buf;
+	self = off <= m->len;
+
 	if (len > SC_STR_MAX - m->len ||
 	    (m = sc_str_realloc(m, alloc)) == NULL) {
 		return false;
 	}
 
-	memcpy(&m->buf[m->len], param, len);
+	memcpy(&m->buf[m->len], self ? &m->buf[off] : param, len);
 	m->len += (uint32_t) len;
 	m->buf[m->len] = '\0';
 	*str = m->buf;
-- 
2.43.0


From 268398cd58a5070a3aeed98d32d0ec59904859d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 40/40] fix: sc_str_replace() copied overlapping memory when
 the replacement is a part of the string itself

---
 string/sc_str.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/string/sc_str.c b/string/sc_str.c
index 448867d..686ed67 100644
--- a/string/sc_str.c
+++ b/string/sc_str.c
@@ -390,7 +390,8 @@ bool sc_str_replace(char **str, const char *replace, const char *with)
 	// Fast path, same size replacement.
 	if (diff == 0) {
 		while ((orig = strstr(orig, replace)) != NULL) {
-			memcpy(orig, with, rep_len);
+			// 'with' may point into the same string.
+			memmove(orig, with, rep_len);
 			orig += rep_len;
 		}
 
-- 
2.43.0

