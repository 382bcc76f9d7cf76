From 19feb9aabfc549e1e03f8e7218be04471692eff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 01/29] fix: gopoolx: preheat no longer starts more workers
 than the limit

---
 poolx/gopoolx/timedpool.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index aedcf63..a87089f 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -50,6 +50,9 @@ func (pool *TimedPool[T]) start(preheat int) {
 	})
 	pool.stop = make(chan struct{})
 
+	if int64(preheat) > pool.maxWorkers {
+		preheat = int(pool.maxWorkers)
+	}
 	if preheat > 0 {
 		pool.workers = int64(preheat)
 		for i := 0; i < preheat; i++ {
-- 
2.43.0


From 4b5c34bb84b89ce0ebbc90b5d115040070c8dfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 02/29] fix: gopoolx: a worker that starts after its retirement
 still ends

---
 poolx/gopoolx/timedpool.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index a87089f..40ed7ed 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -29,8 +29,8 @@ type TimedPool[T any] struct {
 	dobby   []*timedworker[T]
 }
 
-func tworker[T any](pool *TimedPool[T], w *timedworker[T]) {
-	for v := range w.ch {
+func tworker[T any](pool *TimedPool[T], w *timedworker[T], ch chan T) {
+	for v := range ch {
 		pool.handler(v)
 		if pool.free(w) {
 			return
@@ -59,7 +59,7 @@ func (pool *TimedPool[T]) start(preheat int) {
 			w := pool.pool.Get()
 			w.tt = time.Now().UnixNano()
 			pool.dobby = append(pool.dobby, w)
-			go tworker(pool, w)
+			go tworker(pool, w, w.ch)
 		}
 	}
 
@@ -163,7 +163,7 @@ func (pool *TimedPool[T]) Run(v T) (ok bool) {
 			pool.workers++
 			w = pool.pool.Get()
 			w.ch = make(chan T, 1)
-			go tworker(pool, w)
+			go tworker(pool, w, w.ch)
 		} else {
 			pool.mu.Unlock()
 			return false
-- 
2.43.0


From 71fa7d2083da4baee0ccbf7621e8099f6d75721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 03/29] fix: gopoolx: Stop takes effect before it returns and
 may be called more than once

---
 poolx/gopoolx/timedpool.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index 40ed7ed..f6fb41e 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -208,11 +208,13 @@ func NewTimedPool[T any](maxWorkers int64, handler func(T), idleTimeout, gcPerio
 }
 
 func (pool *TimedPool[T]) Stop() {
-	if pool.stop == nil {
+	pool.mu.Lock()
+	defer pool.mu.Unlock()
+	if pool.stop == nil || pool.maxWorkers == -1 {
 		return
 	}
-	pool.stop <- struct{}{}
-	pool.stop = nil
+	pool.maxWorkers = -1
+	close(pool.stop)
 }
 
 func (pool *TimedPool[T]) Workers() int64 {
-- 
2.43.0


From 05ed53c896704f8dc8eba555862403481e121abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 04/29] fix: gopoolx: idle times no longer follow steps of the
 wall clock

---
 poolx/gopoolx/timedpool.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index f6fb41e..6dcd6ad 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -21,6 +21,7 @@ type TimedPool[T any] struct {
 	stop        chan struct{}
 	idleTimeout time.Duration
 	gcPeriod    time.Duration
+	base        time.Time // idle times are counted from here, on the monotonic clock
 	_           [10]uint64
 
 	mu      sync.Mutex
@@ -57,7 +58,7 @@ func (pool *TimedPool[T]) start(preheat int) {
 		pool.workers = int64(preheat)
 		for i := 0; i < preheat; i++ {
 			w := pool.pool.Get()
-			w.tt = time.Now().UnixNano()
+			w.tt = int64(time.Since(pool.base))
 			pool.dobby = append(pool.dobby, w)
 			go tworker(pool, w, w.ch)
 		}
@@ -83,7 +84,7 @@ func (pool *TimedPool[T]) start(preheat int) {
 				}
 
 				// Stop Idle Workers
-				now := time.Now().Add(-pool.idleTimeout).UnixNano()
+				now := int64(time.Since(pool.base) - pool.idleTimeout)
 				dc := len(pool.dobby)
 				if dc > 0 {
 					l, r := 0, dc
@@ -132,8 +133,8 @@ func (pool *TimedPool[T]) start(preheat int) {
 }
 
 func (pool *TimedPool[T]) free(w *timedworker[T]) (stop bool) {
-	w.tt = time.Now().UnixNano()
 	pool.mu.Lock()
+	w.tt = int64(time.Since(pool.base))
 	if pool.maxWorkers == -1 {
 		pool.workers--
 		pool.mu.Unlock()
@@ -201,6 +202,7 @@ func NewTimedPool[T any](maxWorkers int64, handler func(T), idleTimeout, gcPerio
 		handler:     handler,
 		idleTimeout: idleTimeout,
 		gcPeriod:    gcPeriod,
+		base:        time.Now(),
 	}
 
 	pool.start(preheat)
-- 
2.43.0


From 874146985f0a34c53d89c19c238ba4e928bdd7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 05/29] fix: decouplex: deliver in order, drop only when full,
 never spin on skipped slots

---
 iox/decouplex/decouple.go | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/iox/decouplex/decouple.go b/iox/decouplex/decouple.go
index c53b894..8399a13 100644
--- a/iox/decouplex/decouple.go
+++ b/iox/decouplex/decouple.go
@@ -33,17 +33,13 @@ func NewDecoupler(size uint64, drop func(b []byte) (int, error)) *Decoupler {
 
 	return &Decoupler{
 		size:    size,
-		_write:  ^uint64(0),
 		locktab: locktab,
 		buffer:  make([][]byte, size),
 		drop:    drop,
 	}
 }
 
-const (
-	empty = ^uint64(1)
-	busy  = ^uint64(0)
-)
+const empty = ^uint64(0)
 
 func (d *Decoupler) Write(b []byte) (int, error) {
 	if len(b) == 0 {
@@ -51,25 +47,24 @@ func (d *Decoupler) Write(b []byte) (int, error) {
 	}
 
 	for {
-		ts := atomic.AddUint64(&d._write, 1)
-		idx := ts % d.size
-
-		lock := atomic.LoadUint64(&d.locktab[idx])
-		if lock == empty {
-			if !atomic.CompareAndSwapUint64(&d.locktab[idx], empty, busy) {
+		r := atomic.LoadUint64(&d._read)
+		ts := atomic.LoadUint64(&d._write)
+		if ts-r >= d.size {
+			if atomic.LoadUint64(&d._read) != r {
 				continue
 			}
-			d.buffer[idx] = append(d.buffer[idx][:0], b...)
-			atomic.StoreUint64(&d.locktab[idx], ts)
-			atomic.AddUint64(&d._len, 1)
-			return len(b), nil
+			return d.drop(b)
 		}
 
-		if lock != busy {
-			if atomic.LoadUint64(&d._len) == d.size {
-				return d.drop(b)
-			}
+		// the slot of ts is free, because the reader is past its previous use
+		if !atomic.CompareAndSwapUint64(&d._write, ts, ts+1) {
+			continue
 		}
+		idx := ts % d.size
+		d.buffer[idx] = append(d.buffer[idx][:0], b...)
+		atomic.AddUint64(&d._len, 1)
+		atomic.StoreUint64(&d.locktab[idx], ts)
+		return len(b), nil
 	}
 }
 
@@ -83,7 +78,7 @@ func (d *Decoupler) Next(view func([]byte)) bool {
 	var lock uint64
 	for {
 		lock = atomic.LoadUint64(&d.locktab[idx])
-		if lock == empty || lock == busy {
+		if lock == empty {
 			runtime.Gosched() // Wait for the writer
 			continue
 		}
@@ -95,7 +90,7 @@ func (d *Decoupler) Next(view func([]byte)) bool {
 	}
 	atomic.StoreUint64(&d.locktab[idx], empty)
 	atomic.AddUint64(&d._len, ^uint64(0))
-	d._read++
+	atomic.StoreUint64(&d._read, r+1)
 
 	return true
 }
-- 
2.43.0


From ff2c5a1220dfaee006b9efad83c2c1df1e84d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 06/29] fix: sleepx: a Wakeup that reports true ends the sleep
 in progress and no other

---
 timex/sleepx/sleepx.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/timex/sleepx/sleepx.go b/timex/sleepx/sleepx.go
index e8e8ce4..093b2cf 100644
--- a/timex/sleepx/sleepx.go
+++ b/timex/sleepx/sleepx.go
@@ -2,6 +2,7 @@ package sleepx
 
 import (
 	"context"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -15,6 +16,9 @@ type Sleeper struct {
 
 	// slept
 	slept atomic.Bool
+
+	// mu keeps ctx and slept in step
+	mu sync.Mutex
 }
 
 func New() *Sleeper {
@@ -26,12 +30,22 @@ func New() *Sleeper {
 	}
 }
 
-func (s *Sleeper) SleepFor(d time.Duration) bool {
+// begin claims the Sleeper and returns the wakeup signal of this sleep.
+func (s *Sleeper) begin() (<-chan struct{}, bool) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	if !s.slept.CompareAndSwap(false, true) {
+		return nil, false
+	}
+	return s.ctx.Done(), true
+}
+
+func (s *Sleeper) SleepFor(d time.Duration) bool {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
 	defer s.slept.Store(false)
-	done := s.ctx.Done()
 	for {
 		select {
 		case <-time.After(time.Duration(d) * time.Second):
@@ -43,11 +57,11 @@ func (s *Sleeper) SleepFor(d time.Duration) bool {
 }
 
 func (s *Sleeper) SleepUntil(t time.Time) bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
 	defer s.slept.Store(false)
-	done := s.ctx.Done()
 	for {
 		select {
 		case <-time.After(t.Sub(timex.Now())):
@@ -59,11 +73,11 @@ func (s *Sleeper) SleepUntil(t time.Time) bool {
 }
 
 func (s *Sleeper) SleepForever() bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
 	defer s.slept.Store(false)
-	done := s.ctx.Done()
 	for {
 		select {
 		case <-done:
@@ -73,6 +87,8 @@ func (s *Sleeper) SleepForever() bool {
 }
 
 func (s *Sleeper) Wakeup() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	if !s.slept.Load() {
 		return false
 	}
-- 
2.43.0


From fe845c0a67bdc0c7d96295f15aff808786f73a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 07/29] fix: sleepx: SleepFor no longer overflows for large
 counts of seconds

---
 timex/sleepx/sleepx.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/timex/sleepx/sleepx.go b/timex/sleepx/sleepx.go
index 093b2cf..804d70f 100644
--- a/timex/sleepx/sleepx.go
+++ b/timex/sleepx/sleepx.go
@@ -2,6 +2,7 @@ package sleepx
 
 import (
 	"context"
+	"math"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -40,6 +41,17 @@ func (s *Sleeper) begin() (<-chan struct{}, bool) {
 	return s.ctx.Done(), true
 }
 
+// seconds is n seconds, or the longest duration there is.
+func seconds(n time.Duration) time.Duration {
+	switch {
+	case n <= 0:
+		return 0
+	case n > math.MaxInt64/time.Second:
+		return math.MaxInt64
+	}
+	return n * time.Second
+}
+
 func (s *Sleeper) SleepFor(d time.Duration) bool {
 	done, ok := s.begin()
 	if !ok {
@@ -48,7 +60,7 @@ func (s *Sleeper) SleepFor(d time.Duration) bool {
 	defer s.slept.Store(false)
 	for {
 		select {
-		case <-time.After(time.Duration(d) * time.Second):
+		case <-time.After(seconds(d)):
 			return true
 		case <-done:
 			return true
-- 
2.43.0


From 19def37736201083e8519424d075c979a8ed78e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 08/29] fix: syncmapx: a key that cannot be hashed no longer
 leaves the map locked

---
 dsx/mapx/syncmapx/syncmapx.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dsx/mapx/syncmapx/syncmapx.go b/dsx/mapx/syncmapx/syncmapx.go
index e16eecc..44668a6 100644
--- a/dsx/mapx/syncmapx/syncmapx.go
+++ b/dsx/mapx/syncmapx/syncmapx.go
@@ -16,15 +16,14 @@ func New[K comparable, V any]() *Map[K, V] {
 
 func (m *Map[K, V]) Get(k K) V {
 	m.mtx.RLock()
-	val := m.m[k]
-	m.mtx.RUnlock()
-	return val
+	defer m.mtx.RUnlock() // also if the key cannot be hashed
+	return m.m[k]
 }
 
 func (m *Map[K, V]) Has(k K) bool {
 	m.mtx.RLock()
+	defer m.mtx.RUnlock()
 	_, ok := m.m[k]
-	m.mtx.RUnlock()
 	return ok
 }
 
@@ -57,14 +56,14 @@ func (t *Map[K, V]) Values() []V {
 
 func (m *Map[K, V]) Set(k K, v V) {
 	m.mtx.Lock()
+	defer m.mtx.Unlock()
 	m.m[k] = v
-	m.mtx.Unlock()
 }
 
 func (m *Map[K, V]) Delete(k K) {
 	m.mtx.Lock()
+	defer m.mtx.Unlock()
 	delete(m.m, k)
-	m.mtx.Unlock()
 }
 
 func (m *Map[K, V]) Clear() {
-- 
2.43.0


From 34d205049aff37ff786d98f7cc7d2fa8e3530d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 09/29] fix: convx: interface types key the converter table by
 their static type

---
 typex/convx/convx.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/typex/convx/convx.go b/typex/convx/convx.go
index d8dd152..81278af 100644
--- a/typex/convx/convx.go
+++ b/typex/convx/convx.go
@@ -8,44 +8,49 @@ import (
 var converters = make(map[reflect.Type]map[reflect.Type]any)
 var convertersLock = sync.RWMutex{}
 
+// typeOf returns the static type T, which may be an interface type.
+func typeOf[T any]() reflect.Type {
+	return reflect.TypeOf((*T)(nil)).Elem()
+}
+
 func Register[T, R any](converter func(T) R) {
 	convertersLock.Lock()
 	defer convertersLock.Unlock()
-	if converters[reflect.TypeOf(*new(T))] == nil {
-		converters[reflect.TypeOf(*new(T))] = make(map[reflect.Type]any)
+	if converters[typeOf[T]()] == nil {
+		converters[typeOf[T]()] = make(map[reflect.Type]any)
 	}
-	converters[reflect.TypeOf(*new(T))][reflect.TypeOf(*new(R))] = converter
+	converters[typeOf[T]()][typeOf[R]()] = converter
 }
 
 func Unregister[T, R any]() {
 	convertersLock.Lock()
 	defer convertersLock.Unlock()
-	m := converters[reflect.TypeOf(*new(T))]
+	m := converters[typeOf[T]()]
 	if m == nil {
 		return
 	}
-	delete(m, reflect.TypeOf(*new(R)))
+	delete(m, typeOf[R]())
 }
 
 func Exists[T, R any]() bool {
 	convertersLock.RLock()
 	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf(*new(T))]
+	m := converters[typeOf[T]()]
 	if m == nil {
 		return false
 	}
-	_, ok := m[reflect.TypeOf(*new(R))]
+	_, ok := m[typeOf[R]()]
 	return ok
 }
 
 func Into[T, R any](value T) (rs R, ok bool) {
 	convertersLock.RLock()
 	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf(value)]
+	m := converters[typeOf[T]()]
 	if m == nil {
 		return
 	}
-	v := m[reflect.TypeOf(rs)]
+	v := m[typeOf[R]()]
 	if v == nil {
 		return
 	}
-- 
2.43.0


From 26115ab381c5626761615b9afb088c00b73ee7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 10/29] fix: convx: converters run without the registry's lock
 held

---
 typex/convx/convx.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/typex/convx/convx.go b/typex/convx/convx.go
index 81278af..f6e18cb 100644
--- a/typex/convx/convx.go
+++ b/typex/convx/convx.go
@@ -44,23 +44,14 @@ func Exists[T, R any]() bool {
 }
 
 func Into[T, R any](value T) (rs R, ok bool) {
+	// the lock is not held while converting: converters may use the registry
 	convertersLock.RLock()
-	defer convertersLock.RUnlock()
-	m := converters[typeOf[T]()]
-	if m == nil {
-		return
-	}
-	v := m[typeOf[R]()]
-	if v == nil {
-		return
-	}
-	f, ok := v.(func(T) R)
+	f, ok := converters[typeOf[T]()][typeOf[R]()].(func(T) R)
+	convertersLock.RUnlock()
 	if !ok {
 		return
 	}
-	rs = f(value)
-	ok = true
-	return
+	return f(value), true
 }
 
 func IntoOr[T, R any](value T, or R) R {
-- 
2.43.0


From a3792ae2b3dac4c87e33d839a1b95b1506f91998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 11/29] fix: lockx: Lock excludes callers by object instead of
 overwriting the object's memory

---
 syncx/lockx/lockx.go | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/syncx/lockx/lockx.go b/syncx/lockx/lockx.go
index ce07a8c..cc8e56f 100644
--- a/syncx/lockx/lockx.go
+++ b/syncx/lockx/lockx.go
@@ -1,19 +1,39 @@
 package lockx
 
 import (
-	"runtime"
-	"sync/atomic"
-	"unsafe"
+	"sync"
 )
 
+type lock struct {
+	sync.Mutex
+	users int // callers that hold or wait for it, guarded by mtx
+}
+
+var (
+	mtx   sync.Mutex
+	locks = make(map[any]*lock) // by object, only while it is in use
+)
+
+// Lock calls f with l while no other f runs for the same object.
 func Lock[T any](l *T, f func(*T)) {
-	p := l
-	for !atomic.CompareAndSwapPointer((*unsafe.Pointer)(unsafe.Pointer(l)), unsafe.Pointer(p), nil) {
-		runtime.Gosched()
-		p = l
-	}
-	f(p)
-	for !atomic.CompareAndSwapPointer((*unsafe.Pointer)(unsafe.Pointer(l)), nil, unsafe.Pointer(p)) {
-		runtime.Gosched()
+	mtx.Lock()
+	p := locks[l]
+	if p == nil {
+		p = new(lock)
+		locks[l] = p
 	}
+	p.users++
+	mtx.Unlock()
+
+	p.Lock()
+	defer func() {
+		p.Unlock()
+		mtx.Lock()
+		p.users--
+		if p.users == 0 {
+			delete(locks, l)
+		}
+		mtx.Unlock()
+	}()
+	f(l)
 }
-- 
2.43.0


From efef5c0cc142b6b494771ebf632e68ac74eb6108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 12/29] fix: managerx/closex: Close returns nil when no closer
 failed

---
 iox/managerx/closex/manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iox/managerx/closex/manager.go b/iox/managerx/closex/manager.go
index 5a6b954..766bc42 100644
--- a/iox/managerx/closex/manager.go
+++ b/iox/managerx/closex/manager.go
@@ -36,5 +36,9 @@ func (c *CloseManager) Close() error {
 		}
 	}
 
+	if len(errs) == 0 {
+		return nil
+	}
+
 	return errs
 }
-- 
2.43.0


From c48d3fa6b9274b8a2c42b58c11537444c687f004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 13/29] fix: osx/closex: further signals neither run the
 handler nor close C again

---
 osx/closex/closex.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/osx/closex/closex.go b/osx/closex/closex.go
index d51a242..6863d83 100644
--- a/osx/closex/closex.go
+++ b/osx/closex/closex.go
@@ -4,6 +4,7 @@ import (
 	"log"
 	"os"
 	"os/signal"
+	"sync"
 	"syscall"
 )
 
@@ -19,10 +20,13 @@ func HandleKillSig(handler func(), logger *log.Logger) interrupt {
 
 	signal.Notify(sigChannel, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM)
 	go func() {
+		var once sync.Once
 		for signal := range sigChannel {
 			logger.Printf("Receive signal %s, Shutting down...", signal)
-			handler()
-			close(intr.C)
+			once.Do(func() {
+				handler()
+				close(intr.C)
+			})
 		}
 	}()
 	return intr
-- 
2.43.0


From 5888586afc315da0b330f4ec5efdb62d25f16111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 14/29] fix: sklmapx: an iterator asked again after the end
 reports the end

---
 dsx/mapx/sklmapx/sklmapx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/mapx/sklmapx/sklmapx.go b/dsx/mapx/sklmapx/sklmapx.go
index be8685d..b55215a 100644
--- a/dsx/mapx/sklmapx/sklmapx.go
+++ b/dsx/mapx/sklmapx/sklmapx.go
@@ -213,7 +213,7 @@ func (i *Iterator[K, V]) Rewind() {
 func (i *Iterator[K, V]) Next() (K, V, bool) {
 	if i.node == nil {
 		i.node = i.list.skl.head.next[0]
-	} else {
+	} else if i.node != i.list.skl.tail {
 		i.node = i.node.next[0]
 	}
 	if i.node == i.list.skl.tail {
-- 
2.43.0


From 2e696bf3dbf414a54deb96b804eadd8e315718a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 15/29] fix: diffx: durations no longer follow steps of the
 wall clock

---
 timex/diffx/diffx.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/timex/diffx/diffx.go b/timex/diffx/diffx.go
index 3354f2a..07a2271 100644
--- a/timex/diffx/diffx.go
+++ b/timex/diffx/diffx.go
@@ -2,11 +2,10 @@ package diffx
 
 import (
 	"time"
-
-	"github.com/unsafe-risk/utilx/timex"
 )
 
 type Differ struct {
+	// with monotonic clock readings, which conversion to UTC would drop
 	start time.Time
 	end   time.Time
 }
@@ -16,11 +15,11 @@ func New() *Differ {
 }
 
 func (d *Differ) Start() {
-	d.start = timex.Now()
+	d.start = time.Now()
 }
 
 func (d *Differ) End() {
-	d.end = timex.Now()
+	d.end = time.Now()
 }
 
 func (d *Differ) GetDiff() time.Duration {
@@ -28,9 +27,9 @@ func (d *Differ) GetDiff() time.Duration {
 }
 
 func (d *Differ) GetStart() time.Time {
-	return d.start
+	return d.start.UTC()
 }
 
 func (d *Differ) GetEnd() time.Time {
-	return d.end
+	return d.end.UTC()
 }
-- 
2.43.0


From 540e20b07e90c35c0612ba68be706a0c377292e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 16/29] fix: dequex: an emptied deque is empty at both ends

---
 dsx/linkedx/dequex/dequex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsx/linkedx/dequex/dequex.go b/dsx/linkedx/dequex/dequex.go
index d8adff5..881f60e 100644
--- a/dsx/linkedx/dequex/dequex.go
+++ b/dsx/linkedx/dequex/dequex.go
@@ -93,6 +93,8 @@ func (t *Deque[T]) PopFront() (data T, ok bool) {
 		t.head = t.head.next
 		if t.head != nil {
 			t.head.prev = nil
+		} else {
+			t.tail = nil
 		}
 	}
 	return data, true
@@ -109,6 +111,8 @@ func (t *Deque[T]) PopBack() (data T, ok bool) {
 		t.tail = t.tail.prev
 		if t.tail != nil {
 			t.tail.next = nil
+		} else {
+			t.head = nil
 		}
 	}
 	return data, true
-- 
2.43.0


From cfd573ae62def441c7856fe6e9a9d3a55779b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 17/29] fix: dequex: nodes from the pool do not keep their old
 links

---
 dsx/linkedx/dequex/dequex.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dsx/linkedx/dequex/dequex.go b/dsx/linkedx/dequex/dequex.go
index 881f60e..72ac850 100644
--- a/dsx/linkedx/dequex/dequex.go
+++ b/dsx/linkedx/dequex/dequex.go
@@ -40,6 +40,8 @@ func (t *Deque[T]) PushFront(data T) {
 		n.data[0] = data
 		n.start = 0
 		n.end = 1
+		n.next = nil
+		n.prev = nil
 		t.head = n
 		t.tail = n
 		return
@@ -50,6 +52,7 @@ func (t *Deque[T]) PushFront(data T) {
 		n.start = nodeBufferSize - 1
 		n.end = nodeBufferSize
 		n.next = t.head
+		n.prev = nil
 		t.head.prev = n
 		t.head = n
 		return
@@ -64,6 +67,8 @@ func (t *Deque[T]) PushBack(data T) {
 		n.data[0] = data
 		n.start = 0
 		n.end = 1
+		n.next = nil
+		n.prev = nil
 		t.head = n
 		t.tail = n
 		return
@@ -74,6 +79,7 @@ func (t *Deque[T]) PushBack(data T) {
 		n.start = 0
 		n.end = 1
 		n.prev = t.tail
+		n.next = nil
 		t.tail.next = n
 		t.tail = n
 		return
-- 
2.43.0


From 718cc5a451dc5c117427c067d88a1342043e9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 18/29] fix: linkedx/listx: Insert works at both ends and
 ignores positions outside the list

---
 dsx/linkedx/listx/listx.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dsx/linkedx/listx/listx.go b/dsx/linkedx/listx/listx.go
index d136036..604f361 100644
--- a/dsx/linkedx/listx/listx.go
+++ b/dsx/linkedx/listx/listx.go
@@ -45,6 +45,13 @@ func (l *List[T]) Append(data T) {
 }
 
 func (l *List[T]) Insert(index int, data T) {
+	if index < 0 || index > l.length {
+		return
+	}
+	if index == l.length {
+		l.Append(data)
+		return
+	}
 	l.length++
 	n := l.pool.Get().(*node[T])
 	n.data = data
@@ -54,11 +61,6 @@ func (l *List[T]) Insert(index int, data T) {
 		l.head = n
 		return
 	}
-	if index == l.Len() {
-		l.tail.next = n
-		l.tail = n
-		return
-	}
 	i := 0
 	for p := l.head; p != nil; p = p.next {
 		if i == index-1 {
-- 
2.43.0


From 5563206fa751b2dc168717e1a17d2552dfc604d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 19/29] fix: linkedx/listx: Remove keeps the length and the
 tail right

---
 dsx/linkedx/listx/listx.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dsx/linkedx/listx/listx.go b/dsx/linkedx/listx/listx.go
index 604f361..d51f6f0 100644
--- a/dsx/linkedx/listx/listx.go
+++ b/dsx/linkedx/listx/listx.go
@@ -73,26 +73,31 @@ func (l *List[T]) Insert(index int, data T) {
 }
 
 func (l *List[T]) Remove(index int) (rs T, ok bool) {
+	if index < 0 || index >= l.length {
+		return
+	}
 	l.length--
 	if index == 0 {
+		n := l.head
+		rs = n.data
+		l.head = n.next
 		if l.head == nil {
-			return
+			l.tail = nil
 		}
-		rs = l.head.data
-		l.pool.Put(l.head)
-		l.head = l.head.next
+		l.pool.Put(n)
 		ok = true
 		return
 	}
 	i := 0
 	for p := l.head; p != nil; p = p.next {
 		if i == index-1 {
+			n := p.next
+			rs = n.data
+			p.next = n.next
 			if p.next == nil {
-				return
+				l.tail = p
 			}
-			rs = p.next.data
-			l.pool.Put(p.next)
-			p.next = p.next.next
+			l.pool.Put(n)
 			ok = true
 			return
 		}
-- 
2.43.0


From 789e5525c8f89dea7bd65b235049c4effecd322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 20/29] fix: linkedx/queuex: Dequeue returns the element it
 removes

---
 dsx/linkedx/queuex/queuex.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsx/linkedx/queuex/queuex.go b/dsx/linkedx/queuex/queuex.go
index 38627c4..a8c6b16 100644
--- a/dsx/linkedx/queuex/queuex.go
+++ b/dsx/linkedx/queuex/queuex.go
@@ -46,9 +46,11 @@ func (q *Queue[T]) Dequeue() (data T, ok bool) {
 	if q.head == nil {
 		return
 	}
-	q.pool.Put(q.head)
-	q.head = q.head.next
-	return q.head.data, true
+	n := q.head
+	data = n.data
+	q.head = n.next
+	q.pool.Put(n)
+	return data, true
 }
 
 func (q *Queue[T]) Peek() (data T, ok bool) {
-- 
2.43.0


From d283ea6ed59bc7378f433682a7328e7a3494bcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 21/29] fix: linkedx/queuex: nodes from the pool do not keep
 their old link

---
 dsx/linkedx/queuex/queuex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsx/linkedx/queuex/queuex.go b/dsx/linkedx/queuex/queuex.go
index a8c6b16..890c62e 100644
--- a/dsx/linkedx/queuex/queuex.go
+++ b/dsx/linkedx/queuex/queuex.go
@@ -32,6 +32,7 @@ func New[T any]() *Queue[T] {
 func (q *Queue[T]) Enqueue(data T) bool {
 	n := q.pool.Get().(*node[T])
 	n.data = data
+	n.next = nil
 	if q.head == nil {
 		q.head = n
 		q.tail = n
-- 
2.43.0


From e73bd7ab7fd4afdff55be79477829522cb9e1052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 22/29] fix: linkedx/stackx: Pop returns the element it removes

---
 dsx/linkedx/stackx/stackx.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsx/linkedx/stackx/stackx.go b/dsx/linkedx/stackx/stackx.go
index 93b5216..ef88c66 100644
--- a/dsx/linkedx/stackx/stackx.go
+++ b/dsx/linkedx/stackx/stackx.go
@@ -43,9 +43,11 @@ func (s *Stack[T]) Pop() (data T, ok bool) {
 		return
 	}
 	s.length--
-	s.pool.Put(s.head)
-	s.head = s.head.next
-	return s.head.data, true
+	n := s.head
+	data = n.data
+	s.head = n.next
+	s.pool.Put(n)
+	return data, true
 }
 
 func (s *Stack[T]) Peek() (data T, ok bool) {
-- 
2.43.0


From 7b24e8d2a43303cadbe86b057a25cd57d5a9c370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 23/29] fix: aesx: DecryptGCM refuses data shorter than the
 nonce

---
 cryptox/aesx/aesx.go | 6 ++++++
 cryptox/aesx/gcmx.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/cryptox/aesx/aesx.go b/cryptox/aesx/aesx.go
index 3d6349e..7babf03 100644
--- a/cryptox/aesx/aesx.go
+++ b/cryptox/aesx/aesx.go
@@ -1 +1,7 @@
 package aesx
+
+import "errors"
+
+// ErrDataTooShort is returned when the data to decrypt is too short to have been
+// produced by the matching encrypt function.
+var ErrDataTooShort = errors.New("aesx: data too short")
diff --git a/cryptox/aesx/gcmx.go b/cryptox/aesx/gcmx.go
index 5724a0b..1d0c382 100644
--- a/cryptox/aesx/gcmx.go
+++ b/cryptox/aesx/gcmx.go
@@ -36,6 +36,9 @@ func DecryptGCM(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	nonceSize := aead.NonceSize()
+	if len(data) < nonceSize {
+		return nil, ErrDataTooShort
+	}
 	nonce, ciphertext := data[:nonceSize], data[nonceSize:]
 	result, err := aead.Open(nil, nonce, ciphertext, nil)
 	if err != nil {
-- 
2.43.0


From d2fa16278fa06f5bc22d5311e20270546bd7ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 24/29] fix: aesx: DecryptCBC and DecryptCTR refuse data
 shorter than the IV

---
 cryptox/aesx/cbcx.go | 3 +++
 cryptox/aesx/ctrx.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cryptox/aesx/cbcx.go b/cryptox/aesx/cbcx.go
index 35f95cf..0ade417 100644
--- a/cryptox/aesx/cbcx.go
+++ b/cryptox/aesx/cbcx.go
@@ -30,6 +30,9 @@ func DecryptCBC(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	ivSize := block.BlockSize()
+	if len(data) < ivSize {
+		return nil, ErrDataTooShort
+	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
 	mode := cipher.NewCBCDecrypter(block, iv)
 	result := make([]byte, len(ciphertext))
diff --git a/cryptox/aesx/ctrx.go b/cryptox/aesx/ctrx.go
index 032178e..9f9b0f3 100644
--- a/cryptox/aesx/ctrx.go
+++ b/cryptox/aesx/ctrx.go
@@ -30,6 +30,9 @@ func DecryptCTR(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	ivSize := block.BlockSize()
+	if len(data) < ivSize {
+		return nil, ErrDataTooShort
+	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
 	mode := cipher.NewCTR(block, iv)
 	result := make([]byte, len(ciphertext))
-- 
2.43.0


From 2913d5d60ea4eadee65cdf945523e2d368f9f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 25/29] fix: aesx: CBC refuses data that is not a whole number
 of blocks

---
 cryptox/aesx/aesx.go | 3 +++
 cryptox/aesx/cbcx.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/cryptox/aesx/aesx.go b/cryptox/aesx/aesx.go
index 7babf03..a867e42 100644
--- a/cryptox/aesx/aesx.go
+++ b/cryptox/aesx/aesx.go
@@ -5,3 +5,6 @@ import "errors"
 // ErrDataTooShort is returned when the data to decrypt is too short to have been
 // produced by the matching encrypt function.
 var ErrDataTooShort = errors.New("aesx: data too short")
+
+// ErrNotFullBlocks is returned in CBC mode, which only handles whole blocks.
+var ErrNotFullBlocks = errors.New("aesx: data is not a whole number of blocks")
diff --git a/cryptox/aesx/cbcx.go b/cryptox/aesx/cbcx.go
index 0ade417..9728ad9 100644
--- a/cryptox/aesx/cbcx.go
+++ b/cryptox/aesx/cbcx.go
@@ -13,6 +13,9 @@ func EncryptCBC(data []byte, key []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(data)%block.BlockSize() != 0 {
+		return nil, ErrNotFullBlocks
+	}
 	iv := make([]byte, block.BlockSize())
 	if _, err := rand.Read(iv); err != nil {
 		return nil, err
@@ -34,6 +37,9 @@ func DecryptCBC(data []byte, key []byte) ([]byte, error) {
 		return nil, ErrDataTooShort
 	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
+	if len(ciphertext)%ivSize != 0 {
+		return nil, ErrNotFullBlocks
+	}
 	mode := cipher.NewCBCDecrypter(block, iv)
 	result := make([]byte, len(ciphertext))
 	mode.CryptBlocks(result, ciphertext)
-- 
2.43.0


From 4b6be55440c1f7353e146fd47889d2dfc1c6dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 26/29] fix: cmd/autotidy, cmd/autoupdate: do not visit a
 directory again when listing it fails

---
 cmd/autotidy/autotidy.go     | 7 ++++++-
 cmd/autoupdate/autoupdate.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/autotidy/autotidy.go b/cmd/autotidy/autotidy.go
index 6ebbac2..f06e558 100644
--- a/cmd/autotidy/autotidy.go
+++ b/cmd/autotidy/autotidy.go
@@ -10,7 +10,12 @@ import (
 
 func main() {
 	workdir, _ := os.Getwd()
-	filepath.WalkDir(".", func(path string, d fs.DirEntry, _ error) error {
+	filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			// The start directory cannot be examined (d is nil), or a directory
+			// that was already visited cannot be listed.
+			return nil
+		}
 		if d.IsDir() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
diff --git a/cmd/autoupdate/autoupdate.go b/cmd/autoupdate/autoupdate.go
index 556d49a..244ed13 100644
--- a/cmd/autoupdate/autoupdate.go
+++ b/cmd/autoupdate/autoupdate.go
@@ -10,7 +10,12 @@ import (
 
 func main() {
 	workdir, _ := os.Getwd()
-	filepath.WalkDir(".", func(path string, d fs.DirEntry, _ error) error {
+	filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			// The start directory cannot be examined (d is nil), or a directory
+			// that was already visited cannot be listed.
+			return nil
+		}
 		if d.IsDir() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
-- 
2.43.0


From 95d04b1a90cdfe886c38bcf16505130e33fd1acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 27/29] fix: cmd/autotidy, cmd/autoupdate: never run the
 command outside the visited directory

---
 cmd/autotidy/autotidy.go     | 9 +++------
 cmd/autoupdate/autoupdate.go | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/cmd/autotidy/autotidy.go b/cmd/autotidy/autotidy.go
index f06e558..179e15f 100644
--- a/cmd/autotidy/autotidy.go
+++ b/cmd/autotidy/autotidy.go
@@ -3,13 +3,11 @@ package main
 import (
 	"io/fs"
 	"log"
-	"os"
 	"os/exec"
 	"path/filepath"
 )
 
 func main() {
-	workdir, _ := os.Getwd()
 	filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
 			// The start directory cannot be examined (d is nil), or a directory
@@ -20,13 +18,12 @@ func main() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
 			}
-			os.Chdir(path)
 			log.Println("entering", path)
-			exec.Command("go", "mod", "tidy").Run()
+			cmd := exec.Command("go", "mod", "tidy")
+			cmd.Dir = path
+			cmd.Run()
 			log.Println("leaving", path)
-			os.Chdir(workdir)
 		}
 		return nil
 	})
-	os.Chdir(workdir)
 }
diff --git a/cmd/autoupdate/autoupdate.go b/cmd/autoupdate/autoupdate.go
index 244ed13..eef03a4 100644
--- a/cmd/autoupdate/autoupdate.go
+++ b/cmd/autoupdate/autoupdate.go
@@ -3,13 +3,11 @@ package main
 import (
 	"io/fs"
 	"log"
-	"os"
 	"os/exec"
 	"path/filepath"
 )
 
 func main() {
-	workdir, _ := os.Getwd()
 	filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
 			// The start directory cannot be examined (d is nil), or a directory
@@ -20,13 +18,12 @@ func main() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
 			}
-			os.Chdir(path)
 			log.Println("entering", path)
-			exec.Command("go", "get", "-u").Run()
+			cmd := exec.Command("go", "get", "-u")
+			cmd.Dir = path
+			cmd.Run()
 			log.Println("leaving", path)
-			os.Chdir(workdir)
 		}
 		return nil
 	})
-	os.Chdir(workdir)
 }
-- 
2.43.0


From e8e80f2016b69ba38e8cfc22010a68136269588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 28/29] fix: slicex/queuex: Ring has room for the slot that
 stays empty

---
 dsx/slicex/queuex/queuex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/queuex/queuex.go b/dsx/slicex/queuex/queuex.go
index c4aa0d8..fbe7081 100644
--- a/dsx/slicex/queuex/queuex.go
+++ b/dsx/slicex/queuex/queuex.go
@@ -18,7 +18,7 @@ func New[T any](cap int) *Ring[T] {
 		return nil
 	}
 	return &Ring[T]{
-		data: make([]T, cap),
+		data: make([]T, cap+1),
 		cap:  cap + 1,
 		head: 0,
 		tail: 0,
-- 
2.43.0


From aad0a0e61e0ed8d3b18692379f74e4b3eba7d0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 29/29] fix: timex/intersectionx: intervals that touch or have
 no width overlap, in any order

---
 timex/intersectionx/intersectionx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timex/intersectionx/intersectionx.go b/timex/intersectionx/intersectionx.go
index e6d9e5d..fb9c3c8 100644
--- a/timex/intersectionx/intersectionx.go
+++ b/timex/intersectionx/intersectionx.go
@@ -17,6 +17,10 @@ func (s iSlice) Len() int {
 }
 
 func (s iSlice) Less(i, j int) bool {
+	if s[i].Offset == s[j].Offset {
+		// intervals are closed: those that start here overlap those that end here
+		return s[i].Type < s[j].Type
+	}
 	return s[i].Offset < s[j].Offset
 }
 
-- 
2.43.0

