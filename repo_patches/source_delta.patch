From 2e5193b0fd53a436d3d4c341a8be2cc9c6dd7eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:23 +0000
Subject: [PATCH 01/23] fix: confstore: Update persists accepted values, not
 rejected ones

---
 confstore/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confstore/store.go b/confstore/store.go
index 0ae24ce..2b9dded 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -125,7 +125,7 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 
 func (m *defaultImpl) Update(key string, value string) *KVError {
 	err := m.UpdateNoPersist(key, value)
-	if err != nil {
+	if err == nil && key != "" {
 		err2 := m.persister.Save(key, value)
 		if err2 != nil {
 			simplelog.ErrLogger.Printf("error happened when persist key[%s] value[%s]\n", key, value)
-- 
2.43.0


From 2872021d24060a4fd7ed4f60faee2739634ec622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:23 +0000
Subject: [PATCH 02/23] fix: confstore: BatchUpdate persists exactly the
 accepted entries and logs a failed save

---
 confstore/store.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 2b9dded..e6ff0e9 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -100,26 +100,23 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 		return nil
 	}
 
+	// batch persist exactly the accepted kvStrs
+	okKvStrs := make([]*KVStr, 0, len(kvStrs))
 	for _, kvStr := range kvStrs {
 		error := m.UpdateNoPersist(kvStr.Key, kvStr.Value)
 		if error != nil {
 			errors = append(errors, error)
+			continue
 		}
-	}
-
-	// batch persist kvStrs
-	errorKeys := make(map[string]bool)
-	for _, kvError := range errors {
-		errorKeys[kvError.Key] = true
-	}
-	okKvStrs := make([]*KVStr, 0, len(kvStrs))
-	for _, kvStr := range kvStrs {
-		if errorKeys[kvStr.Key] {
+		if kvStr.Key == "" {
 			continue
 		}
 		okKvStrs = append(okKvStrs, kvStr)
 	}
-	m.persister.BatchSave(okKvStrs)
+	err := m.persister.BatchSave(okKvStrs)
+	if err != nil {
+		simplelog.ErrLogger.Println("error happened when batch persist:", err)
+	}
 	return errors
 }
 
-- 
2.43.0


From a85e51e14d01913fe4239b1229dace55ba334381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:23 +0000
Subject: [PATCH 03/23] fix: confstore: an update racing DeregisterKey no
 longer leaves a value behind

---
 confstore/store.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index e6ff0e9..45ad994 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -137,10 +137,12 @@ func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
 		return nil
 	}
 
+	// held until the value is written, otherwise a concurrent DeregisterKey could
+	// be followed by a write that brings the key's value back
 	m.kvProcessorLock.RLock()
-	p, hit := m.kvProcessor[key]
-	m.kvProcessorLock.RUnlock()
+	defer m.kvProcessorLock.RUnlock()
 
+	p, hit := m.kvProcessor[key]
 	if !hit {
 		return &KVError{
 			Key:   key,
-- 
2.43.0


From 9e310a24bfba09fd1a8688fd20a61dc2dd7753b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 04/23] fix: confstore: memory and persisted copy cannot
 diverge under concurrent changes and loads

---
 confstore/store.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 45ad994..193e21b 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -19,6 +19,11 @@ type defaultImpl struct {
 	kvStr        map[string]string
 	persister    Persister
 	loadPolicy   LoadPolicy
+
+	// taken before the other locks: a change of the in-memory value and of its
+	// persisted copy is one step to other changes (write side) and to loads from
+	// the persister (read side), otherwise the two copies could end up different
+	persistLock *sync.RWMutex
 }
 
 func NewStore(persister Persister, policy LoadPolicy) Interface {
@@ -32,9 +37,16 @@ func NewStore(persister Persister, policy LoadPolicy) Interface {
 		kvStr:           make(map[string]string),
 		persister:       persister,
 		loadPolicy:      policy,
+		persistLock:     &sync.RWMutex{},
 	}
 }
 
+func (m *defaultImpl) load() {
+	m.persistLock.RLock()
+	defer m.persistLock.RUnlock()
+	m.loadPolicy.DoLoad(m, m.persister)
+}
+
 func (m *defaultImpl) RegisterKey(key string, defaultValue string, vp ValueProcessor) error {
 
 	if key == "" {
@@ -75,6 +87,9 @@ func (m *defaultImpl) DeregisterKey(key string) {
 		return
 	}
 
+	m.persistLock.Lock()
+	defer m.persistLock.Unlock()
+
 	m.kvProcessorLock.Lock()
 	defer m.kvProcessorLock.Unlock()
 
@@ -100,6 +115,9 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 		return nil
 	}
 
+	m.persistLock.Lock()
+	defer m.persistLock.Unlock()
+
 	// batch persist exactly the accepted kvStrs
 	okKvStrs := make([]*KVStr, 0, len(kvStrs))
 	for _, kvStr := range kvStrs {
@@ -121,6 +139,9 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 }
 
 func (m *defaultImpl) Update(key string, value string) *KVError {
+	m.persistLock.Lock()
+	defer m.persistLock.Unlock()
+
 	err := m.UpdateNoPersist(key, value)
 	if err == nil && key != "" {
 		err2 := m.persister.Save(key, value)
@@ -167,7 +188,7 @@ func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
 }
 
 func (m *defaultImpl) BatchGetValues(keys []string) []*KV {
-	m.loadPolicy.DoLoad(m, m.persister)
+	m.load()
 
 	kvs := make([]*KV, 0, len(keys))
 	for _, key := range keys {
@@ -184,7 +205,7 @@ func (m *defaultImpl) BatchGetValues(keys []string) []*KV {
 }
 
 func (m *defaultImpl) BatchGetValueString(keys []string) []*KVStr {
-	m.loadPolicy.DoLoad(m, m.persister)
+	m.load()
 
 	kvs := make([]*KVStr, 0, len(keys))
 	for _, key := range keys {
@@ -201,7 +222,7 @@ func (m *defaultImpl) BatchGetValueString(keys []string) []*KVStr {
 }
 
 func (m *defaultImpl) MustGetValue(key string) interface{} {
-	m.loadPolicy.DoLoad(m, m.persister)
+	m.load()
 
 	v, hit := m.GetValue(key)
 	if !hit {
@@ -211,7 +232,7 @@ func (m *defaultImpl) MustGetValue(key string) interface{} {
 }
 
 func (m *defaultImpl) MustGetValueString(key string) string {
-	m.loadPolicy.DoLoad(m, m.persister)
+	m.load()
 
 	v, hit := m.GetValueString(key)
 	if !hit {
@@ -221,7 +242,7 @@ func (m *defaultImpl) MustGetValueString(key string) string {
 }
 
 func (m *defaultImpl) GetValue(key string) (v interface{}, hit bool) {
-	m.loadPolicy.DoLoad(m, m.persister)
+	m.load()
 
 	m.kvLock.RLock()
 	defer m.kvLock.RUnlock()
@@ -236,7 +257,7 @@ func (m *defaultImpl) GetValue(key string) (v interface{}, hit bool) {
 }
 
 func (m *defaultImpl) GetValueString(key string) (v string, hit bool) {
-	m.loadPolicy.DoLoad(m, m.persister)
+	m.load()
 
 	m.kvLock.RLock()
 	defer m.kvLock.RUnlock()
@@ -252,6 +273,9 @@ func (m *defaultImpl) GetValueString(key string) (v string, hit bool) {
 }
 
 func (m *defaultImpl) ResetKey(key string) {
+	m.persistLock.Lock()
+	defer m.persistLock.Unlock()
+
 	m.kvLock.Lock()
 	defer m.kvLock.Unlock()
 
-- 
2.43.0


From 04dc132e5c2cd4386796220c34de9ae090d2837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:10 +0000
Subject: [PATCH 05/23] fix: event: Receiver.Close is idempotent and closes
 only itself

---
 event/bus.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/event/bus.go b/event/bus.go
index fe214a0..2061e6a 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -87,6 +87,7 @@ func (b *FanOutBus) Close() {
 	close(b.ch)
 	b.recvMapLock.Lock()
 	for name, recv := range b.recvMap {
+		recv.closed = true
 		close(recv.ch)
 		delete(b.recvMap, name)
 	}
@@ -103,11 +104,20 @@ func (b *FanOutBus) doDispatch() {
 	}
 }
 
-func (b *FanOutBus) deregisterRecv(name string) {
+// deregisterRecv closes exactly this receiver, once: it may have been closed before (also by
+// FanOutBus.Close), or another Receiver may have been registered with the same name since.
+func (b *FanOutBus) deregisterRecv(recv *Receiver) {
 	b.recvMapLock.Lock()
-	close(b.recvMap[name].ch)
-	delete(b.recvMap, name)
-	b.recvMapLock.Unlock()
+	defer b.recvMapLock.Unlock()
+
+	if recv.closed {
+		return
+	}
+	recv.closed = true
+	close(recv.ch)
+	if b.recvMap[recv.name] == recv {
+		delete(b.recvMap, recv.name)
+	}
 }
 
 // Strategy for when Receiver.C is full
@@ -127,11 +137,12 @@ type Receiver struct {
 	name     string
 	bus      *FanOutBus
 	strategy FullStrategy
+	closed   bool // guarded by bus.recvMapLock
 }
 
 // Close Receiver.C, deregistered itself from event bus
 func (r *Receiver) Close() {
-	r.bus.deregisterRecv(r.name)
+	r.bus.deregisterRecv(r)
 }
 
 // Drain drains Receiver.C until it's empty
-- 
2.43.0


From 01898e5bbc4ceb2f29e787e110fe9aa40ed72351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:11 +0000
Subject: [PATCH 06/23] fix: event: CollectTimeout returns when the receiver is
 closed instead of collecting nils

---
 event/bus.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/event/bus.go b/event/bus.go
index 2061e6a..e2c61d2 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -170,7 +170,11 @@ func (r *Receiver) CollectTimeout(timeout time.Duration) (data []interface{}) {
 drained:
 	for {
 		select {
-		case d := <-r.C:
+		case d, ok := <-r.C:
+			if !ok {
+				timer.Stop()
+				break drained
+			}
 			data = append(data, d)
 		case <-timer.C:
 			break drained
-- 
2.43.0


From db6cc30099fd5a9e6d532d9c0b138a23223cf19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 07/23] fix: ratelimiter: fixed window boundaries are computed
 without floating point rounding

---
 ratelimiter/fixedwindow.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/fixedwindow.go b/ratelimiter/fixedwindow.go
index c7abf31..cf0feb9 100644
--- a/ratelimiter/fixedwindow.go
+++ b/ratelimiter/fixedwindow.go
@@ -19,7 +19,6 @@ package ratelimiter
 
 import (
 	gtime "github.com/chanjarster/gears/util/time"
-	"math"
 	"sync"
 	"time"
 )
@@ -99,6 +98,8 @@ func (s *SyncFixedWindow) reset(ts int64) {
 	if s.contains(ts) {
 		return
 	}
-	s.until += int64(math.Ceil(float64(ts-s.until)/float64(s.windowSize))) * s.windowSize
+	if s.windowSize > 0 {
+		s.until += ((ts-s.until-1)/s.windowSize + 1) * s.windowSize
+	}
 	s.count = 0
 }
-- 
2.43.0


From e07688a86b0da4b386e24d0943d3d2b44fc0d6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 08/23] fix: ratelimiter: token buckets issue each second once,
 nothing while full, and survive clock steps

---
 ratelimiter/tokenbucket.go | 42 +++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/ratelimiter/tokenbucket.go b/ratelimiter/tokenbucket.go
index 7ded46a..d53ff95 100644
--- a/ratelimiter/tokenbucket.go
+++ b/ratelimiter/tokenbucket.go
@@ -83,10 +83,14 @@ func (t *SyncTokenBucket) Acquire() bool {
 }
 
 func (t *SyncTokenBucket) issueIfNecessary() {
-	if t.tokens >= t.capacity {
+	now := t.nowFn().UnixNano()
+
+	if t.tokens >= t.capacity || now < t.lastIssueTimestamp {
+		// A full bucket is not issued anything, not even later for the time it was full.
+		// If the clock was set back, issuing starts over from the new time.
+		t.lastIssueTimestamp = now
 		return
 	}
-	now := t.nowFn().UnixNano()
 
 	elapse := now - t.lastIssueTimestamp
 	delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
@@ -138,14 +142,17 @@ func (t *AtomicTokenBucket) Acquire() bool {
 func (t *AtomicTokenBucket) issueIfNecessary() {
 
 	for {
+		oldLit := atomic.LoadInt64(&t.lastIssueTimestamp)
 		oldTokens := atomic.LoadInt64(&t.tokens)
-		if oldTokens >= int64(t.capacity) {
+		now := t.nowFn().UnixNano()
+
+		if oldTokens >= int64(t.capacity) || now < oldLit {
+			// A full bucket is not issued anything, not even later for the time it was full.
+			// If the clock was set back, issuing starts over from the new time.
+			atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, now)
 			return
 		}
 
-		oldLit := atomic.LoadInt64(&t.lastIssueTimestamp)
-		now := t.nowFn().UnixNano()
-
 		nowNano := now
 		elapse := nowNano - oldLit
 		delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
@@ -154,24 +161,21 @@ func (t *AtomicTokenBucket) issueIfNecessary() {
 			return
 		}
 
-		if oldTokens+delta > int64(t.capacity) {
-			delta = int64(t.capacity) - oldTokens
-		}
-
-		s1 := atomic.CompareAndSwapInt64(&t.tokens, oldTokens, oldTokens+delta)
-		if !s1 {
+		// whoever moves lastIssueTimestamp issues the tokens, so that the same time is never issued twice
+		if !atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, nowNano) {
 			continue
 		}
 
-		s2 := atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, nowNano)
-		if !s2 {
-			if s1 {
-				atomic.AddInt64(&t.tokens, -delta)
+		for {
+			newTokens := oldTokens + delta
+			if newTokens > int64(t.capacity) {
+				newTokens = int64(t.capacity)
 			}
-			continue
+			if atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens) {
+				return
+			}
+			oldTokens = atomic.LoadInt64(&t.tokens)
 		}
-
-		break
 	}
 
 }
-- 
2.43.0


From 7142acd3bb01c818633a9b12f574370657da12ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 09/23] fix: schedule: a task that cannot be started is not
 left registered

---
 schedule/task_manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schedule/task_manager.go b/schedule/task_manager.go
index 7e4485b..2ee9cd2 100644
--- a/schedule/task_manager.go
+++ b/schedule/task_manager.go
@@ -57,8 +57,9 @@ func (m *taskManager) Register(task Task) error {
 		return errors.New(fmt.Sprintf("task[%s] duplicated", task.Name()))
 	}
 
-	m.taskMap[task.Name()] = task
+	// may panic, in that case the task must not be registered
 	task.MustStart()
+	m.taskMap[task.Name()] = task
 	return nil
 }
 
-- 
2.43.0


From 815a224c79e906515e8b9d468276dc90c29c99bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 10/23] fix: ratelimiter: IsBlocked of a cluster limiter looks
 at the key ShouldBlock writes

---
 ratelimiter/ttl_ratelimiter_redis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index c0e5f6d..8601ef1 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -163,6 +163,10 @@ func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey str
 	result := &Result{}
 	blockKey = blockKey + suffix
 
+	if r.hashTag != "" {
+		blockKey = blockKey + r.hashTag
+	}
+
 	//local keyb = KEYS[1]
 	raw, err := r.redisClient.WithContext(ctx).EvalSha(
 		scriptSha2,
-- 
2.43.0


From 8b0232947300d4c226622891d6f5228bd0ae19f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 11/23] fix: ratelimiter: redis limiter keeps limiting after
 redis lost its scripts

---
 ratelimiter/ttl_ratelimiter_redis.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index 8601ef1..6992f30 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -168,10 +168,11 @@ func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey str
 	}
 
 	//local keyb = KEYS[1]
-	raw, err := r.redisClient.WithContext(ctx).EvalSha(
+	raw, err := r.runScript(ctx,
 		scriptSha2,
+		script2,
 		[]string{blockKey},
-	).Result()
+	)
 
 	if err != nil {
 		simplelog.ErrLogger.Println("eval script2 ", scriptSha2, "error", err)
@@ -212,15 +213,16 @@ func (r *redisTtlRateLimiter) ShouldBlock2Context(ctx context.Context, key strin
 
 	now := time.Now().UnixNano() / int64(time.Second)
 
-	raw, err := r.redisClient.WithContext(ctx).EvalSha(
+	raw, err := r.runScript(ctx,
 		scriptSha1,
+		script1,
 		[]string{key, blockKey},
 		r.params.GetCapacity(),
 		r.params.GetWindowSizeSeconds(),
 		r.params.GetTimeoutSeconds(),
 		now,
 		msg,
-	).Result()
+	)
 
 	if err != nil {
 		simplelog.ErrLogger.Println("eval script1 ", scriptSha1, "error", err)
@@ -236,6 +238,17 @@ func (r *redisTtlRateLimiter) ShouldBlock2Context(ctx context.Context, key strin
 
 }
 
+// runScript runs a loaded script. Redis forgets loaded scripts when it restarts, in that case the
+// script itself is sent(and thereby loaded again).
+func (r *redisTtlRateLimiter) runScript(ctx context.Context, sha string, script string, keys []string, args ...interface{}) (interface{}, error) {
+	client := r.redisClient.WithContext(ctx)
+	raw, err := client.EvalSha(sha, keys, args...).Result()
+	if err != nil && strings.HasPrefix(err.Error(), "NOSCRIPT ") {
+		raw, err = client.Eval(script, keys, args...).Result()
+	}
+	return raw, err
+}
+
 func (r *redisTtlRateLimiter) ShouldBlock(key string, msg string) *Result {
 	return r.ShouldBlock2(key, key, msg)
 }
-- 
2.43.0


From 90de765ec4a8595754f0550e525a3206bdd9b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 12/23] fix: skywalking/redis: commands do not crash when no
 span can be created

---
 skywalking/redis/hook.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/skywalking/redis/hook.go b/skywalking/redis/hook.go
index d3367cf..8b59b56 100644
--- a/skywalking/redis/hook.go
+++ b/skywalking/redis/hook.go
@@ -64,12 +64,19 @@ func NewHook(tracer *go2sky.Tracer, opts ...Option) rv7.Hook {
 	}
 }
 
+// context key of the span started for a command(or pipeline)
+type spanKey struct{}
+
 func noopInjector(headerKey, headerValue string) error {
 	return nil
 }
 
 func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
 	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, cmd.Name(), h.opts.peer, noopInjector)
+	if err != nil {
+		// can not trace, the command itself must not suffer from that
+		return context.WithValue(ctx, spanKey{}, nil), nil
+	}
 
 	if h.opts.reportArgs {
 		span.Tag(go2sky.TagDBStatement, cmd.String())
@@ -81,12 +88,12 @@ func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.
 	span.Tag(go2sky.TagDBType, "Redis")
 	span.SetComponent(componentID)
 	span.SetSpanLayer(agentv3.SpanLayer_Cache)
-	return nCtx, err
+	return context.WithValue(nCtx, spanKey{}, span), nil
 }
 
 func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
-	span := go2sky.ActiveSpan(ctx)
-	if span == nil {
+	span, ok := ctx.Value(spanKey{}).(go2sky.Span)
+	if !ok {
 		return nil
 	}
 	cmdErr := cmd.Err()
@@ -109,6 +116,10 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 	})
 
 	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, opName, h.opts.peer, noopInjector)
+	if err != nil {
+		// can not trace, the command itself must not suffer from that
+		return context.WithValue(ctx, spanKey{}, nil), nil
+	}
 
 	if h.opts.reportArgs {
 		stmt := quickJoin(cmds, "|", func(obj rv7.Cmder) string {
@@ -122,7 +133,7 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 	span.Tag(go2sky.TagDBType, "Redis")
 	span.SetComponent(componentID)
 	span.SetSpanLayer(agentv3.SpanLayer_Cache)
-	return nCtx, err
+	return context.WithValue(nCtx, spanKey{}, span), nil
 
 }
 
@@ -140,8 +151,8 @@ func quickJoin(objs []rv7.Cmder, sep string, stringer stringer) string {
 }
 
 func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder) error {
-	span := go2sky.ActiveSpan(ctx)
-	if span == nil {
+	span, ok := ctx.Value(spanKey{}).(go2sky.Span)
+	if !ok {
 		return nil
 	}
 
-- 
2.43.0


From 3b5f2dd4ba0354fa7aad8edb7b752fac32c44780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 13/23] fix: skywalking/fasthttp-routing: handler errors reach
 the router

---
 skywalking/fasthttp-routing/middleware.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skywalking/fasthttp-routing/middleware.go b/skywalking/fasthttp-routing/middleware.go
index dbe5250..cc692d0 100644
--- a/skywalking/fasthttp-routing/middleware.go
+++ b/skywalking/fasthttp-routing/middleware.go
@@ -86,9 +86,9 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 			} else {
 				span.Error(time.Now())
 			}
-		} else if err = rCtx.Err(); err != nil {
+		} else if ctxErr := rCtx.Err(); ctxErr != nil {
 			if options.logError {
-				span.Error(time.Now(), err.Error())
+				span.Error(time.Now(), ctxErr.Error())
 			} else {
 				span.Error(time.Now())
 			}
@@ -101,7 +101,7 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 		}
 		span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))
 		span.End()
-		return nil
+		return err
 	}
 
 }
-- 
2.43.0


From 069f5fc01dc5c95735cc1459fcd0077e95512b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 14/23] fix: ratelimiter: a blocked result of the redis limiter
 never has ttl 0

---
 ratelimiter/ttl_ratelimiter_redis.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index 6992f30..7a3f7f7 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -66,7 +66,8 @@ end
 
 if redis.call('EXISTS', keyb) == 1
 then
-  local ttl = redis.call('TTL', keyb)
+  -- TTL rounds, it is 0 in the last half second
+  local ttl = math.max(redis.call('TTL', keyb), 1)
   local omsg = redis.call('GET', keyb)
   return {1, 0, ttl, omsg}
 end
@@ -115,7 +116,8 @@ return {1, 1, exp, msg}
 
 if redis.call('EXISTS', keyb) == 1
 then
-  local ttl = redis.call('TTL', keyb)
+  -- TTL rounds, it is 0 in the last half second
+  local ttl = math.max(redis.call('TTL', keyb), 1)
   local omsg = redis.call('GET', keyb)
   return {1, 0, ttl, omsg}
 end
-- 
2.43.0


From 89027a0a277af5ed0c7730dbc29e32ee0747d5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:15 +0000
Subject: [PATCH 15/23] fix: event: a Block receiver can be closed while the
 dispatcher is blocked on it

---
 event/bus.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/event/bus.go b/event/bus.go
index e2c61d2..3816132 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -68,6 +68,7 @@ func (b *FanOutBus) NewRecvStrategy(name string, bufSize int, fullStrategy FullS
 		name:     name,
 		bus:      b,
 		strategy: fullStrategy,
+		closing:  make(chan struct{}),
 	}
 
 	b.recvMapLock.Lock()
@@ -138,10 +139,16 @@ type Receiver struct {
 	bus      *FanOutBus
 	strategy FullStrategy
 	closed   bool // guarded by bus.recvMapLock
+
+	closing     chan struct{} // closed when Close is called
+	closingOnce sync.Once
 }
 
 // Close Receiver.C, deregistered itself from event bus
 func (r *Receiver) Close() {
+	// if the dispatcher is blocked on this Receiver it gives up, otherwise a Receiver could not
+	// be closed by the goroutine that has been receiving from it
+	r.closingOnce.Do(func() { close(r.closing) })
 	r.bus.deregisterRecv(r)
 }
 
@@ -192,6 +199,15 @@ func (r *Receiver) onEvent(v interface{}) {
 			log.Println("receiver[", r.name, "]: can't catch-up, dropping event")
 		}
 	case Block:
-		r.ch <- v
+		select {
+		case <-r.closing:
+			// nothing is delivered behind an event given up
+			return
+		default:
+		}
+		select {
+		case r.ch <- v:
+		case <-r.closing:
+		}
 	}
 }
-- 
2.43.0


From 64dfab66d3a46a69ccf07ebdabe56f1441b484c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 16/23] fix: ratelimiter: atomic token bucket issues a second
 to everybody at once and within the capacity

While one goroutine was adding the tokens it had claimed by moving the
time of issue, others could take the old tokens first (more than capacity
in one instant) or be refused although tokens were due.
---
 ratelimiter/tokenbucket.go | 58 ++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/ratelimiter/tokenbucket.go b/ratelimiter/tokenbucket.go
index d53ff95..1f7957b 100644
--- a/ratelimiter/tokenbucket.go
+++ b/ratelimiter/tokenbucket.go
@@ -114,6 +114,7 @@ type AtomicTokenBucket struct {
 	tokens             int64 // currently issued tokens amount
 	issueRatePerSecond int   // token issuing rate(per second)
 	lastIssueTimestamp int64 // last time of issuing tokens
+	issueLock          sync.Mutex
 	nowFn              gtime.NowFunc
 }
 
@@ -141,41 +142,36 @@ func (t *AtomicTokenBucket) Acquire() bool {
 
 func (t *AtomicTokenBucket) issueIfNecessary() {
 
-	for {
-		oldLit := atomic.LoadInt64(&t.lastIssueTimestamp)
-		oldTokens := atomic.LoadInt64(&t.tokens)
-		now := t.nowFn().UnixNano()
-
-		if oldTokens >= int64(t.capacity) || now < oldLit {
-			// A full bucket is not issued anything, not even later for the time it was full.
-			// If the clock was set back, issuing starts over from the new time.
-			atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, now)
-			return
-		}
+	elapse := t.nowFn().UnixNano() - atomic.LoadInt64(&t.lastIssueTimestamp)
+	if 0 <= elapse && elapse < int64(time.Second) && atomic.LoadInt64(&t.tokens) < int64(t.capacity) {
+		return
+	}
 
-		nowNano := now
-		elapse := nowNano - oldLit
-		delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
+	// The same time must not be issued twice, and while it is being issued nobody may be refused,
+	// nor take old tokens that the issue has been reckoned with.
+	t.issueLock.Lock()
+	defer t.issueLock.Unlock()
 
-		if delta == 0 {
-			return
-		}
+	now := t.nowFn().UnixNano()
+	tokens := atomic.LoadInt64(&t.tokens) // can only become less until we are done
+	lit := atomic.LoadInt64(&t.lastIssueTimestamp)
 
-		// whoever moves lastIssueTimestamp issues the tokens, so that the same time is never issued twice
-		if !atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, nowNano) {
-			continue
-		}
+	if tokens >= int64(t.capacity) || now < lit {
+		// A full bucket is not issued anything, not even later for the time it was full.
+		// If the clock was set back, issuing starts over from the new time.
+		atomic.StoreInt64(&t.lastIssueTimestamp, now)
+		return
+	}
 
-		for {
-			newTokens := oldTokens + delta
-			if newTokens > int64(t.capacity) {
-				newTokens = int64(t.capacity)
-			}
-			if atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens) {
-				return
-			}
-			oldTokens = atomic.LoadInt64(&t.tokens)
-		}
+	delta := (now - lit) / int64(time.Second) * int64(t.issueRatePerSecond)
+	if delta == 0 {
+		return
 	}
+	if tokens+delta > int64(t.capacity) {
+		delta = int64(t.capacity) - tokens
+	}
+
+	atomic.AddInt64(&t.tokens, delta)
+	atomic.StoreInt64(&t.lastIssueTimestamp, now)
 
 }
-- 
2.43.0


From 16fb5f0085533803f0a245e8c2a44797b1a3e77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:25 +0000
Subject: [PATCH 17/23] fix: ratelimiter: the redis limiter keeps the passed
 requests for the whole window

---
 ratelimiter/ttl_ratelimiter_redis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index 7a3f7f7..6336285 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -76,7 +76,7 @@ local size = redis.call('LLEN', key)
 if size < cap
 then
   redis.call('RPUSH', key, now)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(win + 1, exp * 2))
   return {0, 0, 0, ''}
 end
 
@@ -94,7 +94,7 @@ local list = redis.call('LRANGE', key, 0, 0)
 if table.getn(list) == 0
 then
   redis.call('RPUSH', key, now)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(win + 1, exp * 2))
   return {0, 0, 0, ''}
 end
 
@@ -103,7 +103,7 @@ if now - oldest > win
 then
   redis.call('RPUSH', key, now)
   redis.call('LPOP', key)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(win + 1, exp * 2))
   return {0, 0, 0, ''}
 end
 
-- 
2.43.0


From 186649a2ef2c547c8e2114c9de878059c35008d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:29 +0000
Subject: [PATCH 18/23] fix: a null in the yaml file must not detach fields
 from environment variables and flags

conf.Load initializes all pointers and binds environment variables and flags
to what they point to. A section without content (or any null) in the yaml
file set the pointer to nil: the values of environment and flags for it were
silently lost and the configuration had a nil pointer.
---
 conf/yaml.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/conf/yaml.go b/conf/yaml.go
index ad2c073..717671c 100644
--- a/conf/yaml.go
+++ b/conf/yaml.go
@@ -20,6 +20,7 @@ package conf
 import (
 	"gopkg.in/yaml.v3"
 	"io/ioutil"
+	"reflect"
 )
 
 type yamlFileResolver struct {
@@ -32,6 +33,11 @@ func (y *yamlFileResolver) Resolve(p interface{}) error {
 		return err
 	}
 
+	// a null in yaml (e.g. a section without content) sets a pointer to nil. Keep what it pointed
+	// to, because that's what environment variables and flags are loaded into.
+	restore := keepPointers(reflect.ValueOf(p))
+	defer restore()
+
 	err = yaml.Unmarshal(bytes, p)
 	if err != nil {
 		return err
@@ -39,3 +45,33 @@ func (y *yamlFileResolver) Resolve(p interface{}) error {
 	return nil
 
 }
+
+// keepPointers remembers all non-nil pointer fields, the returned function sets those that have become nil back
+func keepPointers(v reflect.Value) (restore func()) {
+	type pointer struct{ field, old reflect.Value }
+	var pointers []pointer
+
+	var visit func(v reflect.Value)
+	visit = func(v reflect.Value) {
+		if v.Kind() == reflect.Ptr && !v.IsNil() {
+			if v.CanSet() {
+				pointers = append(pointers, pointer{v, reflect.ValueOf(v.Interface())})
+			}
+			v = v.Elem()
+		}
+		if v.Kind() == reflect.Struct && v.CanSet() {
+			for i := 0; i < v.NumField(); i++ {
+				visit(v.Field(i))
+			}
+		}
+	}
+	visit(v)
+
+	return func() {
+		for _, p := range pointers {
+			if p.field.IsNil() {
+				p.field.Set(p.old)
+			}
+		}
+	}
+}
-- 
2.43.0


From c42ecb59e7951abff8fc9399ffd8290bb454c020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:29 +0000
Subject: [PATCH 19/23] fix: fasthttp-routing pprof handler refused passwords
 that contain a colon

As in RFC 7617 only the first colon separates user id and password.
---
 confs/pprof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confs/pprof.go b/confs/pprof.go
index 7d0cc68..5db715f 100644
--- a/confs/pprof.go
+++ b/confs/pprof.go
@@ -101,7 +101,7 @@ func NewFasthttpRoutingPprofHandler(conf *PprofConf) routing.Handler {
 			return nil
 		}
 
-		user_pass := strings.Split(string(b), ":")
+		user_pass := strings.SplitN(string(b), ":", 2)
 		if len(user_pass) != 2 {
 			refuse(ctx)
 			return nil
-- 
2.43.0


From 65f837eb674e520411b928b52a8db2070b1f32ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:47 +0000
Subject: [PATCH 20/23] fix: postgres DSN must escape user, password and
 database, and keep option values with commas

---
 confs/postgresql.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/confs/postgresql.go b/confs/postgresql.go
index b52cb87..c72a592 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -88,16 +88,18 @@ func NewPostgresqlDb(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustom
 }
 
 func buildPgDsn(conf *PostgresqlConf, options map[string]string) string {
-	ret := fmt.Sprintf("postgres://%s:%s@%s:%d/%s?", conf.Username, conf.Password, conf.Host, conf.Port, conf.Database)
+	query := url.Values{}
 	for key, val := range options {
-		val = strings.TrimSpace(val)
-		for _, temp := range strings.Split(val, ",") {
-			temp = strings.TrimSpace(temp)
-			ret += fmt.Sprintf("%s=%s&", key, url.QueryEscape(temp))
-		}
+		query.Set(key, strings.TrimSpace(val))
+	}
+	dsn := url.URL{
+		Scheme:   "postgres",
+		User:     url.UserPassword(conf.Username, conf.Password),
+		Host:     fmt.Sprintf("%s:%d", conf.Host, conf.Port),
+		Path:     "/" + conf.Database,
+		RawQuery: query.Encode(),
 	}
-	ret = strings.TrimRight(ret, "&")
-	return ret
+	return dsn.String()
 }
 
 func preparePgUrlOptions(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustomizer) map[string]string {
-- 
2.43.0


From d3e06caf5d1a8e548f8048452a0706ced691ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:47 +0000
Subject: [PATCH 21/23] fix: fasthttp client with SslTrustMode CUSTOM must
 trust the configured certificates only

---
 confs/fasthttpclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/confs/fasthttpclient.go b/confs/fasthttpclient.go
index d9ff944..beff76a 100644
--- a/confs/fasthttpclient.go
+++ b/confs/fasthttpclient.go
@@ -97,6 +97,7 @@ func NewFastHttpClient(hcConf *FastHttpClientConf, customizer FastHttpClientCust
 			appendCertPool(certPool, cert)
 		}
 		tlsConfig.RootCAs = certPool
+		tlsConfigured = true
 	} else if hcConf.SslTrustMode == "INSECURE" {
 		tlsConfig.InsecureSkipVerify = true
 		tlsConfigured = true
-- 
2.43.0


From d0d8e9203e069678e0990911d24a1e27e4f76529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:10 +0000
Subject: [PATCH 22/23] fix: Elasticsearch client must apply MaxConnsPerHost
 and MaxIdleConnsPerHost to connections per host

MaxConnsPerHost was used as the number of idle connections per host, and
MaxIdleConnsPerHost as the number of idle connections of all hosts; the
number of connections was not limited.
---
 confs/es.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/confs/es.go b/confs/es.go
index bcc000d..b874f97 100644
--- a/confs/es.go
+++ b/confs/es.go
@@ -34,8 +34,9 @@ func NewEsClient(conf *EsConf, customizer EsConfigCustomizer) *elasticsearch.Cli
 	}
 
 	transport := http.DefaultTransport.(*http.Transport).Clone()
-	transport.MaxIdleConnsPerHost = conf.MaxConnsPerHost
-	transport.MaxIdleConns = conf.MaxIdleConnsPerHost
+	transport.MaxConnsPerHost = conf.MaxConnsPerHost
+	transport.MaxIdleConnsPerHost = conf.MaxIdleConnsPerHost
+	transport.MaxIdleConns = 0 // idle connections are limited per host only
 	transport.ResponseHeaderTimeout = time.Second * 60
 
 	esConf.Transport = transport
-- 
2.43.0


From c9c010387911f16c4f145940378701d8b5590c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:38 +0000
Subject: [PATCH 23/23] fix: ratelimiter: token buckets must not overflow with
 very large rates or capacities

Capacity or rate near the largest integer (no limit) made the number of
tokens overflow, after which the bucket refused everything.
---
 ratelimiter/tokenbucket.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/ratelimiter/tokenbucket.go b/ratelimiter/tokenbucket.go
index 1f7957b..19b2b3e 100644
--- a/ratelimiter/tokenbucket.go
+++ b/ratelimiter/tokenbucket.go
@@ -93,20 +93,26 @@ func (t *SyncTokenBucket) issueIfNecessary() {
 	}
 
 	elapse := now - t.lastIssueTimestamp
-	delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
+	delta := issueTokens(elapse, t.issueRatePerSecond, t.capacity-t.tokens)
 
 	if delta == 0 {
 		return
 	}
 
-	t.tokens += int(delta)
-	if t.tokens > t.capacity {
-		t.tokens = t.capacity
-	}
-
+	t.tokens += delta
 	t.lastIssueTimestamp = now
 }
 
+// Tokens issued in elapse nanoseconds, at most room.
+func issueTokens(elapse int64, issueRatePerSecond int, room int) int {
+	seconds, rate := elapse/int64(time.Second), int64(issueRatePerSecond)
+	if rate > 0 && seconds > int64(room)/rate {
+		// more than there is room for, the product may overflow
+		return room
+	}
+	return int(seconds * rate)
+}
+
 // TokenBucket implementation using "sync/atomic" package.
 // Has better concurrent performance than SyncTokenBucket.
 type AtomicTokenBucket struct {
@@ -163,15 +169,12 @@ func (t *AtomicTokenBucket) issueIfNecessary() {
 		return
 	}
 
-	delta := (now - lit) / int64(time.Second) * int64(t.issueRatePerSecond)
+	delta := issueTokens(now-lit, t.issueRatePerSecond, t.capacity-int(tokens))
 	if delta == 0 {
 		return
 	}
-	if tokens+delta > int64(t.capacity) {
-		delta = int64(t.capacity) - tokens
-	}
 
-	atomic.AddInt64(&t.tokens, delta)
+	atomic.AddInt64(&t.tokens, int64(delta))
 	atomic.StoreInt64(&t.lastIssueTimestamp, now)
 
 }
-- 
2.43.0

