From 576ab8917b999715ad7eb5c708fcad7eb32a85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:08 +0000
Subject: [PATCH 01/39] fix: proxy.Lookup removes the head and tail and locks
 Get

Removing the first or last stream left it linked, so it was still found
and the size went negative; Get walked the list without the lock.
---
 proxy/lookup.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/proxy/lookup.go b/proxy/lookup.go
index b5e4791..431365e 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -33,6 +33,9 @@ func (l *Lookup) IsEmpty() bool {
 }
 
 func (l *Lookup) Get(id uint32) (Stream, bool) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	if n := l.find(id); n != nil {
 		return n.stream, true
 	}
@@ -76,10 +79,14 @@ func (l *Lookup) Remove(id uint32) {
 	nextNode := nodeToDelete.next
 
 	if prevNode != nil {
-		prevNode.next = nodeToDelete.next
+		prevNode.next = nextNode
+	} else {
+		l.head = nextNode
 	}
 	if nextNode != nil {
-		nextNode.prev = nodeToDelete.prev
+		nextNode.prev = prevNode
+	} else {
+		l.tail = prevNode
 	}
 }
 
-- 
2.43.0


From da61678cd804f3b0da7882ed6cf35742f7cea0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:08 +0000
Subject: [PATCH 02/39] fix: server stream identifiers skip zero when they wrap

The value was compared with zero before it was masked to 31 bits, so the
wrap-around handed out stream 0, which is the connection itself.
---
 internal/socket/stream_id.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/socket/stream_id.go b/internal/socket/stream_id.go
index 974ab23..b25f404 100644
--- a/internal/socket/stream_id.go
+++ b/internal/socket/stream_id.go
@@ -20,9 +20,9 @@ type ServerStreamIDs uint64
 func (p *ServerStreamIDs) Next() (uint32, bool) {
 	// 2,4,6,8...
 	seed := atomic.AddUint64((*uint64)(p), 1)
-	v := 2 * seed
+	v := _maskStreamID & (2 * seed)
 	if v != 0 {
-		return uint32(_maskStreamID & v), seed <= _halfSeed
+		return uint32(v), seed <= _halfSeed
 	}
 	return p.Next()
 }
-- 
2.43.0


From 41f43be9f61b301afff55b21b9fa88d4cb356e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:02 +0000
Subject: [PATCH 03/39] fix: live instance handles are never issued twice

---
 invoke/instances.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/invoke/instances.go b/invoke/instances.go
index a32508e..6b1c6b2 100644
--- a/invoke/instances.go
+++ b/invoke/instances.go
@@ -3,7 +3,6 @@ package invoke
 import (
 	"errors"
 	"sync"
-	"unsafe"
 )
 
 type Ptr[T any] struct {
@@ -12,22 +11,26 @@ type Ptr[T any] struct {
 
 var ErrNoInstance = errors.New("no instance is active for this pointer")
 
+// LiveInstances hands out opaque handles for instances. A handle is never
+// issued twice, so a handle that was removed can not resolve to an instance
+// that was registered later (the address of an instance could be reused).
 type LiveInstances[T any] struct {
 	mu        sync.RWMutex
-	instances map[*Ptr[T]]struct{}
+	last      uint64
+	instances map[uint64]*Ptr[T]
 }
 
 func NewLiveInstances[T any]() *LiveInstances[T] {
 	return &LiveInstances[T]{
-		instances: make(map[*Ptr[T]]struct{}),
+		instances: make(map[uint64]*Ptr[T]),
 	}
 }
 
 func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 	t.mu.RLock()
 	defer t.mu.RUnlock()
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
-	_, ok = t.instances[ptr]
+	var ptr *Ptr[T]
+	ptr, ok = t.instances[id]
 	if ok {
 		inst = ptr.Ptr
 	}
@@ -36,20 +39,20 @@ func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 
 func (t *LiveInstances[T]) Put(inst T) uint64 {
 	ptr := &Ptr[T]{Ptr: inst}
-	handle := uint64(uintptr(unsafe.Pointer(ptr)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	t.instances[ptr] = struct{}{}
-	return handle
+	t.last++
+	t.instances[t.last] = ptr
+	return t.last
 }
 
 func (t *LiveInstances[T]) Remove(id uint64) (inst T, ok bool) {
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	if _, ok = t.instances[ptr]; ok {
+	var ptr *Ptr[T]
+	if ptr, ok = t.instances[id]; ok {
 		inst = ptr.Ptr
-		delete(t.instances, ptr)
+		delete(t.instances, id)
 	}
 	return
 }
-- 
2.43.0


From 68f85a4b24384ef8e4f7f9818b6d4cf879821423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 04/39] fix: flows take a step off before running it and count
 what it awaits atomically

---
 rx/flow/flow.go | 57 ++++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/rx/flow/flow.go b/rx/flow/flow.go
index 874f617..7726621 100644
--- a/rx/flow/flow.go
+++ b/rx/flow/flow.go
@@ -1,6 +1,8 @@
 package flow
 
 import (
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/await"
 	"github.com/nanobus/iota/go/rx/flux"
@@ -13,19 +15,25 @@ type (
 		monoSink mono.Sink[T]
 		fluxSink flux.Sink[T]
 
-		ended      bool
-		completed  int
-		awaitables []await.Awaitable
+		ended int32 // set atomically
 	}
 
 	StepFn func() (await.Group, error)
 )
 
 func (f *Flow[T]) End() (await.Group, error) {
-	f.ended = true
+	f.end()
 	return nil, nil
 }
 
+func (f *Flow[T]) end() {
+	atomic.StoreInt32(&f.ended, 1)
+}
+
+func (f *Flow[T]) hasEnded() bool {
+	return atomic.LoadInt32(&f.ended) != 0
+}
+
 func New[T any]() *Flow[T] {
 	return &Flow[T]{}
 }
@@ -46,6 +54,7 @@ func (f *Flow[T]) Complete() (await.Group, error) {
 	if f.fluxSink == nil {
 		panic("Complete is only called for flux retruns")
 	}
+	f.end()
 	f.fluxSink.Complete()
 
 	return nil, nil
@@ -55,12 +64,14 @@ func (f *Flow[T]) Success(value T) (await.Group, error) {
 	if f.monoSink == nil {
 		panic("success is only called for mono retruns")
 	}
+	f.end()
 	f.monoSink.Success(value)
 
 	return nil, nil
 }
 
 func (f *Flow[T]) Error(err error) (await.Group, error) {
+	f.end()
 	if f.monoSink != nil {
 		f.monoSink.Error(err)
 	} else if f.fluxSink != nil {
@@ -85,38 +96,36 @@ func (f *Flow[T]) Flux() flux.Flux[T] {
 }
 
 func (f *Flow[T]) next() {
-	if len(f.steps) == 0 {
+	if len(f.steps) == 0 || f.hasEnded() {
 		return
 	}
 
-	f.completed = 0
+	// Take the step off before anything can trigger the next one.
 	step := f.steps[0]
+	f.steps = f.steps[1:]
 	awaitables, err := step()
 	if err != nil {
-		if f.monoSink != nil {
-			f.monoSink.Error(err)
-		} else if f.fluxSink != nil {
-			f.fluxSink.Error(err)
-		}
+		f.Error(err)
 		return
 	}
 
-	if f.ended {
+	if f.hasEnded() {
 		return
 	}
 
-	f.awaitables = awaitables
-	for _, a := range f.awaitables {
-		a.Async() // Ensure task is running.
-		a.Notify(f.check)
+	// The awaitables may end at any time and in any goroutine.
+	// The extra one is held until all are being awaited.
+	pending := int32(len(awaitables) + 1)
+	check := func() {
+		if atomic.AddInt32(&pending, -1) == 0 {
+			f.next()
+		}
 	}
-
-	f.steps = f.steps[1:]
-}
-
-func (f *Flow[T]) check(rx.SignalType) {
-	f.completed++
-	if f.completed >= len(f.awaitables) {
-		f.next()
+	for _, a := range awaitables {
+		a.Async() // Ensure task is running.
+		a.Notify(func(rx.SignalType) {
+			check()
+		})
 	}
+	check()
 }
-- 
2.43.0


From 0fb09ed87cd1ada383dd63e3d56e7b1cf545fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 05/39] fix: monos are safe for concurrent use and always run
 their final callback

---
 rx/mono/mono.go             | 95 ++++++++++++++++++++++++++++++-------
 rx/mono/mono_host.go        | 14 +++++-
 rx/mono/mono_webassembly.go |  6 +++
 rx/mono/processor.go        | 37 +++++++++++----
 4 files changed, 123 insertions(+), 29 deletions(-)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 002c985..93b865f 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -42,6 +42,9 @@ func (e errorSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -74,6 +77,9 @@ func (j justSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnSuccess != nil {
 		sub.OnSuccess(j.value)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalComplete)
+	}
 	return j
 }
 
@@ -99,7 +105,11 @@ func Create[T any](source Source[T]) Mono[T] {
 }
 
 type mono[T any] struct {
-	source     Source[T]
+	source Source[T]
+
+	// mu guards the fields below and the state of the subscribers.
+	// It is never held while calling out.
+	mu         mutex
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
 }
@@ -112,7 +122,9 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 		doOnSubscribe: sub.OnRequest,
 		doFinally:     sub.Finally,
 	}
+	m.mu.Lock()
 	m.subscriber = &wrapper
+	m.mu.Unlock()
 	m.source(&wrapper)
 	return m
 }
@@ -126,15 +138,21 @@ func (m *mono[T]) Notify(fn rx.FnFinally) {
 	// 	m.subscriber = &wrapper
 	// 	m.source(&wrapper)
 	// }
-	if m.subscriber != nil && m.subscriber.closed {
-		fn(m.subscriber.signal)
+	m.mu.Lock()
+	if m.subscriber != nil && m.subscriber.done {
+		signal := m.subscriber.signal
+		m.mu.Unlock()
+		fn(signal)
 		return
 	}
 
 	m.callbacks = append(m.callbacks, fn)
+	m.mu.Unlock()
 }
 
 func (m *mono[T]) Get() (ret T, err error) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	if !m.subscriber.closed {
 		panic("mono: Get called before completion")
 	}
@@ -142,7 +160,8 @@ func (m *mono[T]) Get() (ret T, err error) {
 }
 
 type subscriber[T any] struct {
-	closed bool
+	closed bool // no further signals are accepted
+	done   bool // the final callback has been called
 	value  T
 	err    error
 	signal rx.SignalType
@@ -155,11 +174,9 @@ type subscriber[T any] struct {
 }
 
 func (s *subscriber[T]) Success(value T) {
-	if s.closed {
+	if !s.end(rx.SignalComplete, value, nil) {
 		return
 	}
-	s.value = value
-	s.closed = true
 	if s.doOnSuccess != nil {
 		s.doOnSuccess(value)
 	}
@@ -167,32 +184,49 @@ func (s *subscriber[T]) Success(value T) {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	var none T
+	if !s.end(rx.SignalError, none, err) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
 	s.finally(rx.SignalError)
 }
 
-func (s *subscriber[T]) finally(signal rx.SignalType) {
+// end closes the subscriber. It returns false if it was closed already.
+func (s *subscriber[T]) end(signal rx.SignalType, value T, err error) bool {
+	s.m.mu.Lock()
+	defer s.m.mu.Unlock()
+	if s.closed {
+		return false
+	}
+	s.closed = true
 	s.signal = signal
+	s.value = value
+	s.err = err
+	return true
+}
+
+func (s *subscriber[T]) finally(signal rx.SignalType) {
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.m.callbacks {
+	s.m.mu.Lock()
+	s.done = true
+	callbacks := s.m.callbacks
+	s.m.callbacks = nil
+	s.m.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	if s.closed {
+	var none T
+	if !s.end(rx.SignalCancel, none, nil) {
 		return
 	}
-	s.closed = true
 	s.finally(rx.SignalCancel)
 }
 
@@ -206,13 +240,20 @@ func Map[S any | ~[]any, D any](mono Mono[S], tx rx.Transform[S, D]) Mono[D] {
 type mapper[S any, D any] struct {
 	mono Mono[S]
 	tx   rx.Transform[S, D]
+
+	// mu guards the field below.
+	mu     mutex
+	failed bool // the transform failed
 }
 
 func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
-	b.mono.Subscribe(Subscribe[S]{
+	s := Subscribe[S]{
 		OnSuccess: func(value S) {
 			converted, err := b.tx(value)
 			if err != nil {
+				b.mu.Lock()
+				b.failed = true
+				b.mu.Unlock()
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
@@ -224,17 +265,35 @@ func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
 		},
 		OnError:   sub.OnError,
 		OnRequest: sub.OnRequest,
-		Finally:   sub.Finally,
-	})
+	}
+	if sub.Finally != nil {
+		s.Finally = func(signal rx.SignalType) {
+			sub.Finally(b.translate(signal))
+		}
+	}
+	b.mono.Subscribe(s)
 	return b
 }
 
+// translate turns the completion of the source into an error if the
+// transform failed.
+func (b *mapper[S, D]) translate(signal rx.SignalType) rx.SignalType {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	if b.failed && signal == rx.SignalComplete {
+		return rx.SignalError
+	}
+	return signal
+}
+
 func (b *mapper[S, D]) Async() {
 	b.mono.Async()
 }
 
 func (b *mapper[S, D]) Notify(fn rx.FnFinally) {
-	b.mono.Notify(fn)
+	b.mono.Notify(func(signal rx.SignalType) {
+		fn(b.translate(signal))
+	})
 }
 
 func (b *mapper[S, D]) Get() (D, error) {
diff --git a/rx/mono/mono_host.go b/rx/mono/mono_host.go
index 72e0c0d..db302cb 100644
--- a/rx/mono/mono_host.go
+++ b/rx/mono/mono_host.go
@@ -3,14 +3,26 @@
 
 package mono
 
+import (
+	"sync"
+)
+
+type mutex struct {
+	sync.Mutex
+}
+
 type Blockable[T any] interface {
 	Block() (T, error)
 }
 
 func (s *mono[T]) Block() (ret T, err error) {
+	s.mu.Lock()
 	if s.subscriber != nil && s.subscriber.closed {
-		return s.subscriber.value, s.subscriber.err
+		ret, err = s.subscriber.value, s.subscriber.err
+		s.mu.Unlock()
+		return ret, err
 	}
+	s.mu.Unlock()
 
 	done := make(chan struct{})
 	go func() {
diff --git a/rx/mono/mono_webassembly.go b/rx/mono/mono_webassembly.go
index 5c489e0..6a44e5d 100644
--- a/rx/mono/mono_webassembly.go
+++ b/rx/mono/mono_webassembly.go
@@ -5,3 +5,9 @@ package mono
 
 type Blockable[T any] interface {
 }
+
+type mutex struct{}
+
+func (m *mutex) Lock() {}
+
+func (m *mutex) Unlock() {}
diff --git a/rx/mono/processor.go b/rx/mono/processor.go
index a7bb35d..3e7fc4f 100644
--- a/rx/mono/processor.go
+++ b/rx/mono/processor.go
@@ -7,19 +7,27 @@ type Processor[T any] interface {
 
 type ProcessorImpl[T any] struct {
 	Mono[T]
+
+	// mu guards the fields below.
+	mu      mutex
 	sink    Sink[T]
 	success *T
+	failed  bool
 	err     error
 }
 
 func NewProcessor[T any]() *ProcessorImpl[T] {
 	p := &ProcessorImpl[T]{}
 	p.Mono = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.success != nil {
-			sink.Success(*p.success)
-		} else if p.err != nil {
-			sink.Error(p.err)
+		success, failed, err := p.success, p.failed, p.err
+		p.mu.Unlock()
+		// Signaled before there was a subscriber.
+		if success != nil {
+			sink.Success(*success)
+		} else if failed {
+			sink.Error(err)
 		}
 	})
 
@@ -27,17 +35,26 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 }
 
 func (p *ProcessorImpl[T]) Success(value T) {
-	if p.sink != nil {
-		p.sink.Success(value)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil && p.success == nil && !p.failed {
 		p.success = &value
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.Success(value)
+	}
 }
 
 func (p *ProcessorImpl[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil && p.success == nil && !p.failed {
+		p.failed = true
 		p.err = err
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.Error(err)
+	}
 }
-- 
2.43.0


From 2735fb0157ce09b0b955d24249707197e3b7b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 06/39] fix: fluxes are safe for concurrent use and end exactly
 once

---
 rx/flux/flux.go             | 212 ++++++++++++++++++++++++++++--------
 rx/flux/flux_host.go        |  12 +-
 rx/flux/flux_webassembly.go |   6 +-
 rx/flux/processor.go        |  67 +++++++++---
 4 files changed, 232 insertions(+), 65 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 864f7e5..4e9153d 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -47,6 +47,9 @@ func (e errorFlow[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -61,9 +64,16 @@ func (e errorFlow[T]) Block(_ Subscribe[T]) error {
 }
 
 func (e errorFlow[T]) Subscription() rx.Subscription {
-	return nil
+	return endedSubscription{}
 }
 
+// endedSubscription is the subscription of a sequence that has ended.
+type endedSubscription struct{}
+
+func (endedSubscription) Request(n int) {}
+
+func (endedSubscription) Cancel() {}
+
 func Create[T any](source Source[T]) Flux[T] {
 	return &flux[T]{
 		source: source,
@@ -71,7 +81,11 @@ func Create[T any](source Source[T]) Flux[T] {
 }
 
 type flux[T any] struct {
-	source     Source[T]
+	source Source[T]
+
+	// mu guards the fields below and the state of the subscribers.
+	// It is never held while calling out.
+	mu         mutex
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
 }
@@ -86,28 +100,38 @@ func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 		f:            f,
 		noRequest:    sub.NoRequest,
 	}
+	f.mu.Lock()
 	f.subscriber = &s
+	f.mu.Unlock()
 	f.source(&s)
 	s.handleOnSubscribe()
 	return f
 }
 
 func (f *flux[T]) Subscription() rx.Subscription {
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	return f.subscriber
 }
 
 func (f *flux[T]) Async() {}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
-	if f.subscriber != nil && f.subscriber.closed {
-		fn(f.subscriber.signal)
+	f.mu.Lock()
+	if f.subscriber != nil && f.subscriber.done {
+		signal := f.subscriber.signal
+		f.mu.Unlock()
+		fn(signal)
 		return
 	}
 	f.callbacks = append(f.callbacks, fn)
+	f.mu.Unlock()
 }
 
 type subscriber[T any] struct {
-	closed    bool
+	closed    bool // no further signals are accepted
+	done      bool // the final callback has been called
+	told      bool // the source has been told about the cancellation
 	n         int
 	err       error
 	sub       OnSubscribe
@@ -121,28 +145,33 @@ type subscriber[T any] struct {
 	doOnRequest  rx.FnOnSubscribe
 	doFinally    rx.FnFinally
 
-	mu mutex
+	mu mutex // serializes requests to the source
 }
 
 func (s *subscriber[T]) Next(value T) {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.n--
+	s.f.mu.Unlock()
 	if s.doOnNext != nil {
 		s.doOnNext(value)
 	}
 
-	if s.n == 0 {
+	s.f.mu.Lock()
+	page := s.n == 0 && !s.closed
+	s.f.mu.Unlock()
+	if page {
 		s.handleOnSubscribe()
 	}
 }
 
 func (s *subscriber[T]) Complete() {
-	if s.closed {
+	if !s.end(rx.SignalComplete, nil) {
 		return
 	}
-	s.closed = true
 	if s.doOnComplete != nil {
 		s.doOnComplete()
 	}
@@ -150,34 +179,61 @@ func (s *subscriber[T]) Complete() {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	if !s.end(rx.SignalError, err) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
 	s.finally(rx.SignalError)
 }
 
-func (s *subscriber[T]) finally(signal rx.SignalType) {
+// end closes the subscriber. It returns false if it was closed already.
+func (s *subscriber[T]) end(signal rx.SignalType, err error) bool {
+	s.f.mu.Lock()
+	defer s.f.mu.Unlock()
+	if s.closed {
+		return false
+	}
+	s.closed = true
 	s.signal = signal
+	s.err = err
+	return true
+}
+
+func (s *subscriber[T]) finally(signal rx.SignalType) {
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.f.callbacks {
+	s.f.mu.Lock()
+	s.done = true
+	callbacks := s.f.callbacks
+	s.f.callbacks = nil
+	s.f.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
+	s.f.mu.Lock()
 	if s.closed {
+		// Cancelled before the source was ready.
+		tell := s.signal == rx.SignalCancel && !s.told && sub.Cancel != nil
+		if tell {
+			s.told = true
+		}
+		s.f.mu.Unlock()
+		if tell {
+			sub.Cancel()
+		}
 		return
 	}
 	s.sub = sub
-	if s.n > 0 {
-		s.doRequest(s.n)
+	n := s.n
+	s.f.mu.Unlock()
+	if n > 0 {
+		s.doRequest(n)
 	}
 }
 
@@ -193,28 +249,49 @@ func (s *subscriber[T]) handleOnSubscribe() {
 }
 
 func (s *subscriber[T]) Request(n int) {
+	s.f.mu.Lock()
+	if s.closed {
+		s.f.mu.Unlock()
+		return
+	}
 	s.n += n
-	if s.sub.Request != nil {
+	ready := s.sub.Request != nil
+	s.f.mu.Unlock()
+	if ready {
 		s.doRequest(n)
 	}
 }
 
-func (s *subscriber[T]) Cancel() {
-	s.closed = true
-	if s.sub.Cancel != nil {
-		s.sub.Cancel()
-	}
-	if s.doFinally != nil {
-		s.doFinally(rx.SignalCancel)
+// request asks the source for n items unless the sequence has ended.
+func (s *subscriber[T]) request(n int) {
+	s.f.mu.Lock()
+	closed := s.closed
+	request := s.sub.Request
+	s.f.mu.Unlock()
+	if !closed && request != nil {
+		request(n)
 	}
 }
 
-func (s *subscriber[T]) Close() {
-	s.closed = true
+func (s *subscriber[T]) Cancel() {
+	if !s.end(rx.SignalCancel, nil) {
+		return
+	}
+	s.f.mu.Lock()
+	cancel := s.sub.Cancel
+	if s.told {
+		cancel = nil
+	}
+	s.told = s.told || cancel != nil
+	s.f.mu.Unlock()
+	if cancel != nil {
+		cancel()
+	}
+	s.finally(rx.SignalCancel)
 }
 
 func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
-	return mapper[S, D]{
+	return &mapper[S, D]{
 		f:  f,
 		tx: tx,
 	}
@@ -223,25 +300,28 @@ func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
 type mapper[S, D any] struct {
 	f  Flux[S]
 	tx rx.Transform[S, D]
-}
 
-type closable[T any] interface {
-	Close()
+	// mu guards the fields below.
+	mu    mutex
+	err   error // the error the transform failed with
+	ended bool
 }
 
-func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+func (m *mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+	m.mu.Lock()
+	m.err = nil
+	m.ended = false
+	m.mu.Unlock()
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
+			m.mu.Lock()
+			failed := m.err != nil
+			m.mu.Unlock()
+			if failed {
+				return
+			}
 			if converted, err := m.tx(value); err != nil {
-				if close, ok := m.f.(closable[S]); ok {
-					close.Close()
-				}
-				if sub.OnError != nil {
-					sub.OnError(err)
-				}
-				if sub.Finally != nil {
-					sub.Finally(rx.SignalError)
-				}
+				m.fail(err)
 			} else if sub.OnNext != nil {
 				sub.OnNext(converted)
 			}
@@ -249,20 +329,60 @@ func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
 		OnComplete: sub.OnComplete,
 		OnError:    sub.OnError,
 		OnRequest:  sub.OnRequest,
-		Finally:    sub.Finally,
-		NoRequest:  sub.NoRequest,
+		Finally: func(signal rx.SignalType) {
+			m.mu.Lock()
+			m.ended = true
+			err := m.err
+			m.mu.Unlock()
+			if translated := m.translate(signal); translated != signal {
+				signal = translated
+				if sub.OnError != nil {
+					sub.OnError(err)
+				}
+			}
+			if sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
+		NoRequest: sub.NoRequest,
 	})
 	return m
 }
 
-func (m mapper[S, D]) Async() {
+// fail cancels the source after the transform has failed, which ends
+// the mapped sequence with err.
+func (m *mapper[S, D]) fail(err error) {
+	m.mu.Lock()
+	if m.ended || m.err != nil {
+		m.mu.Unlock()
+		return
+	}
+	m.err = err
+	m.mu.Unlock()
+	m.f.Subscription().Cancel()
+}
+
+// translate turns the cancellation of the source that is due to a
+// failed transform into the error that it is for the subscriber.
+func (m *mapper[S, D]) translate(signal rx.SignalType) rx.SignalType {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	if m.err != nil && signal == rx.SignalCancel {
+		return rx.SignalError
+	}
+	return signal
+}
+
+func (m *mapper[S, D]) Async() {
 	m.f.Async()
 }
 
-func (m mapper[S, D]) Notify(fn rx.FnFinally) {
-	m.f.Notify(fn)
+func (m *mapper[S, D]) Notify(fn rx.FnFinally) {
+	m.f.Notify(func(signal rx.SignalType) {
+		fn(m.translate(signal))
+	})
 }
 
-func (m mapper[S, D]) Subscription() rx.Subscription {
+func (m *mapper[S, D]) Subscription() rx.Subscription {
 	return m.f.Subscription()
 }
diff --git a/rx/flux/flux_host.go b/rx/flux/flux_host.go
index bdf98f5..51f4ae1 100644
--- a/rx/flux/flux_host.go
+++ b/rx/flux/flux_host.go
@@ -21,19 +21,23 @@ func (s *subscriber[T]) doRequest(n int) {
 	go func(n int) {
 		s.mu.Lock()
 		defer s.mu.Unlock()
-		s.sub.Request(n)
+		s.request(n)
 	}(n)
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
-	if f.subscriber.closed {
-		return f.subscriber.err
+	f.mu.Lock()
+	if f.subscriber != nil && f.subscriber.done {
+		err = f.subscriber.err
+		f.mu.Unlock()
+		return err
 	}
+	f.mu.Unlock()
 
 	return Block(Flux[T](f), sub)
 }
 
-func (b mapper[S, D]) Block(sub Subscribe[D]) (err error) {
+func (b *mapper[S, D]) Block(sub Subscribe[D]) (err error) {
 	return Block(Flux[D](b), sub)
 }
 
diff --git a/rx/flux/flux_webassembly.go b/rx/flux/flux_webassembly.go
index 08ca2f7..6e26aba 100644
--- a/rx/flux/flux_webassembly.go
+++ b/rx/flux/flux_webassembly.go
@@ -8,6 +8,10 @@ type Blockable[T any] interface {
 
 type mutex struct{}
 
+func (m *mutex) Lock() {}
+
+func (m *mutex) Unlock() {}
+
 func (s *subscriber[T]) doRequest(n int) {
-	s.sub.Request(n)
+	s.request(n)
 }
diff --git a/rx/flux/processor.go b/rx/flux/processor.go
index 10770a6..c6ee507 100644
--- a/rx/flux/processor.go
+++ b/rx/flux/processor.go
@@ -7,45 +7,84 @@ type Processor[T any] interface {
 
 type processor[T any] struct {
 	Flux[T]
-	sink Sink[T]
-	sub  *OnSubscribe
+
+	// mu guards the fields below.
+	mu        mutex
+	sink      Sink[T]
+	sub       *OnSubscribe
+	completed bool
+	failed    bool
+	err       error
 }
 
 func NewProcessor[T any]() Processor[T] {
 	p := &processor[T]{}
 	p.Flux = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.sub != nil {
-			sink.OnSubscribe(*p.sub)
-			p.sub = nil
+		sub := p.sub
+		p.sub = nil
+		completed, failed, err := p.completed, p.failed, p.err
+		p.mu.Unlock()
+		if sub != nil {
+			sink.OnSubscribe(*sub)
+		}
+		// Signaled before there was a subscriber.
+		if failed {
+			sink.Error(err)
+		} else if completed {
+			sink.Complete()
 		}
 	})
 
 	return p
 }
 
+func (p *processor[T]) getSink() Sink[T] {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	return p.sink
+}
+
 func (p *processor[T]) Next(value T) {
-	if p.sink != nil {
-		p.sink.Next(value)
+	if sink := p.getSink(); sink != nil {
+		sink.Next(value)
 	}
 }
 
 func (p *processor[T]) Complete() {
-	if p.sink != nil {
-		p.sink.Complete()
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil && !p.failed {
+		p.completed = true
+	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.Complete()
 	}
 }
 
 func (p *processor[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil && !p.completed && !p.failed {
+		p.failed = true
+		p.err = err
+	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.Error(err)
 	}
 }
 
 func (p *processor[T]) OnSubscribe(sub OnSubscribe) {
-	if p.sink != nil {
-		p.sink.OnSubscribe(sub)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil {
 		p.sub = &sub
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.OnSubscribe(sub)
+	}
 }
-- 
2.43.0


From 07e5717d31ae4228852e2712fd166cfa33cf2f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 07/39] fix: short or inconsistent frames and operation tables
 are decode errors

---
 internal/frames/error.go           |  3 +++
 internal/frames/payload.go         | 11 +++++-----
 internal/frames/request_n.go       |  3 +++
 internal/frames/request_payload.go | 14 +++++++------
 internal/frames/setup.go           | 32 +++++++++++++++++++++---------
 internal/frames/util.go            | 18 +++++++++++++++++
 operations/operatons.go            | 30 ++++++++++++++++++++++++----
 7 files changed, 86 insertions(+), 25 deletions(-)

diff --git a/internal/frames/error.go b/internal/frames/error.go
index f6966b6..236482c 100644
--- a/internal/frames/error.go
+++ b/internal/frames/error.go
@@ -21,6 +21,9 @@ func (f *Error) Type() FrameType {
 }
 
 func (f *Error) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return errFrameTooShort
+	}
 	code := binary.BigEndian.Uint32(payload)
 	data := string(payload[4:])
 
diff --git a/internal/frames/payload.go b/internal/frames/payload.go
index 6a6b18b..1eb1026 100644
--- a/internal/frames/payload.go
+++ b/internal/frames/payload.go
@@ -32,12 +32,11 @@ func (f *Payload) Decode(header *FrameHeader, payload []byte) error {
 	metadata := emptyBuffer
 
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], payload[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		payload = payload[3:]
-		metadata = payload[:mdLength]
-		payload = payload[mdLength:]
+		var err error
+		metadata, payload, err = splitMetadata(payload)
+		if err != nil {
+			return err
+		}
 	}
 
 	*f = Payload{
diff --git a/internal/frames/request_n.go b/internal/frames/request_n.go
index 636df9d..ac6ae79 100644
--- a/internal/frames/request_n.go
+++ b/internal/frames/request_n.go
@@ -20,6 +20,9 @@ func (f *RequestN) Type() FrameType {
 }
 
 func (f *RequestN) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return errFrameTooShort
+	}
 	n := binary.BigEndian.Uint32(payload)
 
 	*f = RequestN{
diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index f9095c1..c06e975 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -38,6 +38,9 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 	complete := true
 
 	if frameType == FrameTypeRequestStream || frameType == FrameTypeRequestChannel {
+		if len(payload) < 4 {
+			return errFrameTooShort
+		}
 		initialN = binary.BigEndian.Uint32(payload)
 		payload = payload[4:]
 	}
@@ -47,12 +50,11 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 
 	metadata := emptyBuffer
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], payload[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		payload = payload[3:]
-		metadata = payload[:mdLength]
-		payload = payload[mdLength:]
+		var err error
+		metadata, payload, err = splitMetadata(payload)
+		if err != nil {
+			return err
+		}
 	}
 
 	*f = RequestPayload{
diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index cc24bf7..1a5f364 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -35,6 +35,9 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	lease := flags.Check(FlagLease)
 	var metadata []byte
 
+	if len(payload) < 12 {
+		return errFrameTooShort
+	}
 	major := binary.BigEndian.Uint16(payload)
 	minor := binary.BigEndian.Uint16(payload[2:])
 	timeBetweenKeepalive := time.Millisecond * time.Duration(binary.BigEndian.Uint32(payload[4:]))
@@ -44,27 +47,38 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	data := payload[12:]
 
 	if resume {
-		tokenLength := binary.BigEndian.Uint16(data)
+		if len(data) < 2 {
+			return errFrameTooShort
+		}
+		tokenLength := int(binary.BigEndian.Uint16(data))
+		if len(data) < 2+tokenLength {
+			return errFrameTooShort
+		}
 		token = data[2 : 2+tokenLength]
 		data = data[2+tokenLength:]
 	}
 
-	metadataMimeLength := data[0]
+	if len(data) < 1 || len(data) < 1+int(data[0]) {
+		return errFrameTooShort
+	}
+	metadataMimeLength := int(data[0])
 	mimeMetadata := string(data[1 : 1+metadataMimeLength])
 	data = data[1+metadataMimeLength:]
 
-	dataMimeLength := data[0]
+	if len(data) < 1 || len(data) < 1+int(data[0]) {
+		return errFrameTooShort
+	}
+	dataMimeLength := int(data[0])
 	mimeData := string(data[1 : 1+dataMimeLength])
 	data = data[1+dataMimeLength:]
 	payload = data
 
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], data[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		data = data[3:]
-		metadata = data[:mdLength]
-		payload = data[mdLength:]
+		var err error
+		metadata, payload, err = splitMetadata(data)
+		if err != nil {
+			return err
+		}
 	}
 
 	*f = Setup{
diff --git a/internal/frames/util.go b/internal/frames/util.go
index d962f97..6c06642 100644
--- a/internal/frames/util.go
+++ b/internal/frames/util.go
@@ -2,10 +2,28 @@ package frames
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
 var emptyBuffer = []byte{}
 
+var errFrameTooShort = errors.New("frame is too short")
+
+// splitMetadata splits the length prefixed metadata from what follows it.
+func splitMetadata(payload []byte) (metadata, rest []byte, err error) {
+	if len(payload) < 3 {
+		return nil, nil, errFrameTooShort
+	}
+	var mdLengthBuf [4]byte
+	copy(mdLengthBuf[1:], payload[0:3])
+	mdLength := int(binary.BigEndian.Uint32(mdLengthBuf[:]))
+	payload = payload[3:]
+	if len(payload) < mdLength {
+		return nil, nil, errFrameTooShort
+	}
+	return payload[:mdLength], payload[mdLength:], nil
+}
+
 func readString(payload []byte) (string, []byte) {
 	strLen := binary.BigEndian.Uint16(payload[:2])
 	payload = payload[2:]
diff --git a/operations/operatons.go b/operations/operatons.go
index bca2fb2..3549d90 100644
--- a/operations/operatons.go
+++ b/operations/operatons.go
@@ -62,8 +62,15 @@ func (d Direction) String() string {
 // Magic is the 4 byte preamble (literally "\0wrs") of the binary format
 var Magic = []byte{0x00, 0x77, 0x72, 0x73}
 var ErrInvalidMagicNumber = errors.New("invalid magic number")
+var errTableTooShort = errors.New("operation table is too short")
+
+// minOperationLen is the length of an operation with empty names.
+const minOperationLen = 12
 
 func FromBytes(buf []byte) (Table, error) {
+	if len(buf) < 10 {
+		return nil, errTableTooShort
+	}
 	if !bytes.Equal(buf[0:4], Magic) {
 		return nil, ErrInvalidMagicNumber
 	}
@@ -76,18 +83,30 @@ func FromBytes(buf []byte) (Table, error) {
 	}
 	buf = buf[2:]
 	numOps := binary.BigEndian.Uint32(buf)
-	operations := make(Table, numOps)
 	buf = buf[4:]
+	if int64(numOps) > int64(len(buf)/minOperationLen) {
+		return nil, errTableTooShort
+	}
+	operations := make(Table, numOps)
 	for i := 0; i < int(numOps); i++ {
+		if len(buf) < 8 {
+			return nil, errTableTooShort
+		}
 		opType := RequestType(buf[0])
 		dir := Direction(buf[1])
 		id := binary.BigEndian.Uint32(buf[2:6])
-		nsLen := binary.BigEndian.Uint16(buf[6:8])
+		nsLen := int(binary.BigEndian.Uint16(buf[6:8]))
 		buf = buf[8:]
+		if len(buf) < nsLen+2 {
+			return nil, errTableTooShort
+		}
 		ns := string(buf[:nsLen])
 		buf = buf[nsLen:]
-		opLen := binary.BigEndian.Uint16(buf[0:2])
+		opLen := int(binary.BigEndian.Uint16(buf[0:2]))
 		buf = buf[2:]
+		if len(buf) < opLen+2 {
+			return nil, errTableTooShort
+		}
 		op := string(buf[:opLen])
 		buf = buf[opLen:]
 		operations[i] = Operation{
@@ -97,7 +116,10 @@ func FromBytes(buf []byte) (Table, error) {
 			Namespace: ns,
 			Operation: op,
 		}
-		reservedLen := binary.BigEndian.Uint16(buf)
+		reservedLen := int(binary.BigEndian.Uint16(buf))
+		if len(buf) < 2+reservedLen {
+			return nil, errTableTooShort
+		}
 		buf = buf[2+reservedLen:] // Reserved
 	}
 
-- 
2.43.0


From 02ae68214cecb8ef57b8b5acd24039b4ec7aa0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 08/39] fix: decoded frames do not share the scanner's buffer

---
 transport/rsocket/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transport/rsocket/decoder.go b/transport/rsocket/decoder.go
index 7e9be2e..fabe5c4 100644
--- a/transport/rsocket/decoder.go
+++ b/transport/rsocket/decoder.go
@@ -34,7 +34,8 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 		}
 		return
 	}
-	raw = scanner.Bytes()[lengthFieldSize:]
+	// Frames outlive the next call while the scanner reuses its buffer.
+	raw = append([]byte(nil), scanner.Bytes()[lengthFieldSize:]...)
 	if len(raw) < frames.FrameHeaderLen {
 		err = ErrIncompleteHeader
 	}
-- 
2.43.0


From 0687a61187cdd0e4fdc484bea4550c2e8817d386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 09/39] fix: transport serializes senders, refuses oversized
 frames and ends what it started

---
 transport/rsocket/tcp_conn.go  |  7 ++++-
 transport/rsocket/transport.go | 54 +++++++++++++++++++++++++++++-----
 2 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/transport/rsocket/tcp_conn.go b/transport/rsocket/tcp_conn.go
index d414878..8a667bd 100644
--- a/transport/rsocket/tcp_conn.go
+++ b/transport/rsocket/tcp_conn.go
@@ -104,7 +104,12 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
 	// }
-	_, err = u24.MustNewUint24(size).WriteTo(p.writer)
+	length, err := u24.NewUint24(size)
+	if err != nil {
+		// Nothing has been written: the connection remains usable.
+		return
+	}
+	_, err = length.WriteTo(p.writer)
 	if err != nil {
 		err = fmt.Errorf("write frame failed: %w", err)
 		return
diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index c547611..6946fad 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/nanobus/iota/go/internal/buffer"
 	"github.com/nanobus/iota/go/internal/frames"
+	"github.com/nanobus/iota/go/internal/u24"
 	"github.com/nanobus/iota/go/invoke"
 )
 
@@ -55,6 +56,8 @@ type Transport struct {
 	handler     DuplexHandler
 	isServer    bool
 	ready       chan struct{}
+	done        chan struct{}
+	sendMu      sync.Mutex // a frame is several writes to conn
 }
 
 // NewTransport creates new transport.
@@ -65,6 +68,7 @@ func NewTransport(c Conn, handler DuplexHandler, isServer bool) *Transport {
 		handler:     handler,
 		isServer:    isServer,
 		ready:       make(chan struct{}),
+		done:        make(chan struct{}),
 	}
 	handler.SetFrameSender(t.handler.HandleFrame)
 	return &t
@@ -108,14 +112,19 @@ func (p *Transport) Send(frame frames.Frame, flush bool) (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.sendMu.Lock()
+	defer p.sendMu.Unlock()
 	err = p.conn.Write(frame)
-	if err != nil {
+	if u24.IsExceedMaximumUint24Error(err) {
 		return
 	}
-	if !flush {
-		return
+	if err == nil && flush {
+		err = p.conn.Flush()
+	}
+	if err != nil {
+		// The peer can not make sense of what would follow.
+		_ = p.Close()
 	}
-	err = p.conn.Flush()
 	return
 }
 
@@ -125,6 +134,8 @@ func (p *Transport) Flush() (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.sendMu.Lock()
+	defer p.sendMu.Unlock()
 	err = p.conn.Flush()
 	return
 }
@@ -176,8 +187,24 @@ func (p *Transport) loopReadBuffer(ctx context.Context, bf *buffer.Unbounded[fra
 
 // Start start transport.
 func (p *Transport) Start(ctx context.Context) error {
+	defer close(p.done)
+
+	// The streams of the connection end with it.
 	defer func() {
-		_ = p.Close()
+		if c, ok := p.handler.(io.Closer); ok {
+			_ = c.Close()
+		}
+	}()
+
+	// Reading does not notice the end of the context.
+	stop := make(chan struct{})
+	defer close(stop)
+	go func() {
+		select {
+		case <-ctx.Done():
+			_ = p.Close()
+		case <-stop:
+		}
 	}()
 
 	done := make(chan struct{}, 1)
@@ -188,6 +215,7 @@ func (p *Transport) Start(ctx context.Context) error {
 	)
 
 	defer func() {
+		_ = p.Close()
 		framesBuffer.Dispose()
 
 		<-done
@@ -231,6 +259,18 @@ func (p *Transport) Start(ctx context.Context) error {
 	}
 }
 
-func (p *Transport) WaitUntilReady() {
-	<-p.ready
+// WaitUntilReady waits until the transport is ready. It returns false
+// if the transport ended without getting ready.
+func (p *Transport) WaitUntilReady() bool {
+	select {
+	case <-p.ready:
+		return true
+	case <-p.done:
+	}
+	select {
+	case <-p.ready:
+		return true
+	default:
+		return false
+	}
 }
-- 
2.43.0


From bd91cc7abccb15b7cbc0e22e1c802fba0d67159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 10/39] fix: server closes early connections and listeners and
 forgets ended connections

---
 transport/rsocket/tcp_transport.go | 52 +++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index 26dfd57..0835173 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -52,12 +52,18 @@ func (t *tcpServerTransport) Close() (err error) {
 }
 
 func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (err error) {
-	t.l, err = t.lf(ctx)
+	l, err := t.lf(ctx)
 	if err != nil {
 		notifier <- false
 		err = fmt.Errorf("listen tcp server failed: %w", err)
 		return
 	}
+	if !t.setListener(l) {
+		// Closed before it was listening.
+		_ = l.Close()
+		notifier <- false
+		return errTransportClosed
+	}
 
 	defer func() {
 		_ = t.Close()
@@ -79,12 +85,16 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 	// Start loop of accepting connections.
 	for {
 		var c net.Conn
-		c, err = t.l.Accept()
+		c, err = l.Accept()
 		if err == io.EOF || isClosedErr(err) {
 			err = nil
 			break
 		}
 		if err != nil {
+			if t.closed() {
+				err = nil
+				break
+			}
 			err = fmt.Errorf("accept next conn failed: %w", err)
 			continue
 		}
@@ -97,20 +107,52 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		})
 
 		if t.putTransport(tp) {
-			go tp.Start(ctx)
 			go func() {
-				tp.WaitUntilReady()
-				t.acceptor(ctx, h, func(tp *Transport) {
+				_ = tp.Start(ctx)
+				t.removeTransport(tp)
+			}()
+			go func() {
+				if !tp.WaitUntilReady() {
+					return
+				}
+				t.getAcceptor()(ctx, h, func(tp *Transport) {
 					t.removeTransport(tp)
 				})
 			}()
 		} else {
+			_ = tp.Close()
 			_ = t.Close()
 		}
 	}
 	return
 }
 
+func (t *tcpServerTransport) getAcceptor() ServerTransportAcceptor {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	return t.acceptor
+}
+
+// setListener returns false if the server is closed already.
+func (t *tcpServerTransport) setListener(l net.Listener) bool {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	if t.closed() {
+		return false
+	}
+	t.l = l
+	return true
+}
+
+func (t *tcpServerTransport) closed() bool {
+	select {
+	case <-t.done:
+		return true
+	default:
+		return false
+	}
+}
+
 func (t *tcpServerTransport) removeTransport(tp *Transport) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
-- 
2.43.0


From 75746d21eb45259bf56839bbe393260f9a460faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 11/39] fix: streams end once per direction, leave the registry
 and end with the connection

---
 handler/caller.go                |  26 ++--
 handler/handler.go               | 250 +++++++++++++------------------
 proxy/flux.go                    | 183 +++++++++++++++++-----
 proxy/flux_host.go               |  17 +++
 proxy/lookup.go                  |  12 ++
 proxy/mono.go                    |  18 ++-
 proxy/responder.go               | 213 ++++++++++++++++++++++++++
 transport/wasmrs/guest/caller.go |   6 +-
 transport/wasmrs/host/caller.go  |   6 +-
 9 files changed, 525 insertions(+), 206 deletions(-)
 create mode 100644 proxy/flux_host.go
 create mode 100644 proxy/responder.go

diff --git a/handler/caller.go b/handler/caller.go
index 7a2eb92..8077137 100644
--- a/handler/caller.go
+++ b/handler/caller.go
@@ -2,6 +2,7 @@ package handler
 
 import (
 	"context"
+	"math"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/invoke"
@@ -13,10 +14,13 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+// unknownOperation is the index of an operation the peer does not have.
+const unknownOperation = math.MaxUint32
+
 var _ = (invoke.Caller)((*Handler)(nil))
 
 func (i *Handler) ImportRequestResponse(namespace, operation string) uint32 {
-	for _, op := range i.opTable {
+	for _, op := range i.getOpTable() {
 		if op.Direction == operations.Export &&
 			op.Type == operations.RequestResponse &&
 			op.Namespace == namespace &&
@@ -24,11 +28,11 @@ func (i *Handler) ImportRequestResponse(namespace, operation string) uint32 {
 			return op.Index
 		}
 	}
-	return 0
+	return unknownOperation
 }
 
 func (i *Handler) ImportFireAndForget(namespace, operation string) uint32 {
-	for _, op := range i.opTable {
+	for _, op := range i.getOpTable() {
 		if op.Direction == operations.Export &&
 			op.Type == operations.FireAndForget &&
 			op.Namespace == namespace &&
@@ -36,11 +40,11 @@ func (i *Handler) ImportFireAndForget(namespace, operation string) uint32 {
 			return op.Index
 		}
 	}
-	return 0
+	return unknownOperation
 }
 
 func (i *Handler) ImportRequestStream(namespace, operation string) uint32 {
-	for _, op := range i.opTable {
+	for _, op := range i.getOpTable() {
 		if op.Direction == operations.Export &&
 			op.Type == operations.RequestStream &&
 			op.Namespace == namespace &&
@@ -48,11 +52,11 @@ func (i *Handler) ImportRequestStream(namespace, operation string) uint32 {
 			return op.Index
 		}
 	}
-	return 0
+	return unknownOperation
 }
 
 func (i *Handler) ImportRequestChannel(namespace, operation string) uint32 {
-	for _, op := range i.opTable {
+	for _, op := range i.getOpTable() {
 		if op.Direction == operations.Export &&
 			op.Type == operations.RequestChannel &&
 			op.Namespace == namespace &&
@@ -60,7 +64,7 @@ func (i *Handler) ImportRequestChannel(namespace, operation string) uint32 {
 			return op.Index
 		}
 	}
-	return 0
+	return unknownOperation
 }
 
 func (i *Handler) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
@@ -71,7 +75,7 @@ func (i *Handler) RequestResponse(ctx context.Context, p payload.Payload) mono.M
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -92,7 +96,7 @@ func (i *Handler) RequestStream(ctx context.Context, p payload.Payload) flux.Flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -102,7 +106,7 @@ func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) getNextStreamID() uint32 {
diff --git a/handler/handler.go b/handler/handler.go
index 73cb055..74f58ed 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -4,7 +4,7 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -12,16 +12,22 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+// minMetadataLen is the length of an operation and a parent stream ID.
+const minMetadataLen = 8 // 48 before... but why?
+
 type FrameSender func(f frames.Frame) error
 
+var (
+	errClosed          = errors.New("connection closed")
+	errNotFound        = errors.New("not_found")
+	errInvalidMetadata = errors.New("Invalid metadata")
+)
+
 type Handler struct {
 	ctx          context.Context
-	sendFrame    FrameSender
 	streamIDs    uint64
 	nextStreamID func() (id uint32, firstLoop bool)
 
@@ -41,7 +47,10 @@ type Handler struct {
 	importedRS   []invoke.RequestStreamHandler
 	importedRC   []invoke.RequestChannelHandler
 
-	opTable operations.Table
+	mu        sync.RWMutex // guards the fields below
+	sendFrame FrameSender
+	closed    bool
+	opTable   operations.Table
 }
 
 // type fragmentedPayload struct {
@@ -72,10 +81,24 @@ func New(ctx context.Context, mode Mode) *Handler {
 }
 
 func (i *Handler) SetFrameSender(sendFrame func(f frames.Frame) error) {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	i.sendFrame = sendFrame
+	i.closed = false
 }
 
+// Close ends all streams with an error. Nothing can be sent until
+// there is another frame sender.
 func (i *Handler) Close() error {
+	i.mu.Lock()
+	i.closed = true
+	i.mu.Unlock()
+	for _, s := range i.guestStreams.Streams() {
+		s.OnError(errClosed)
+	}
+	for _, s := range i.hostStreams.Streams() {
+		s.OnError(errClosed)
+	}
 	return nil
 }
 
@@ -104,7 +127,17 @@ func (i *Handler) getStream(streamID uint32) (proxy.Stream, bool) {
 }
 
 func (i *Handler) SendFrame(f frames.Frame) error {
-	return i.sendFrame(f)
+	i.mu.RLock()
+	sendFrame, closed := i.sendFrame, i.closed
+	i.mu.RUnlock()
+	if sendFrame == nil || closed {
+		return errClosed
+	}
+	return sendFrame(f)
+}
+
+func (i *Handler) sendError(streamID uint32, err error) {
+	proxy.SendError(i.SendFrame, streamID, err)
 }
 
 func (i *Handler) HandleFrame(f frames.Frame) (err error) {
@@ -115,22 +148,21 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		var ok bool
 		str, ok = i.getStream(streamID)
 		if !ok {
-			// Return error
-			if frameType != frames.FrameTypeRequestN {
-				return fmt.Errorf("stream ID %d not found", streamID)
-			}
+			// The frame crossed the end of the stream.
 			return
 		}
 	}
 
 	switch v := f.(type) {
 	case *frames.Setup:
-		if i.opTable == nil {
+		if i.getOpTable() == nil {
 			opers, err := operations.FromBytes(v.Data)
 			if err != nil {
 				return errors.New("could not read operations list")
 			}
+			i.mu.Lock()
 			i.opTable = opers
+			i.mu.Unlock()
 		}
 
 	case *frames.RequestPayload:
@@ -156,7 +188,11 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestStream(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			s, ok := i.acceptStream(streamID, false)
+			if !ok {
+				return
+			}
+			go i.handleRequestStream(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			// if i.checkFollows(&rc) {
@@ -164,16 +200,25 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestChannel(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			s, ok := i.acceptStream(streamID, true)
+			if !ok {
+				return
+			}
+			if v.Complete {
+				s.OnComplete()
+			}
+			go i.handleRequestChannel(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 		}
 
 	case *frames.RequestN:
-		s := str.(DoRequest)
-		go s.DoRequest(int(v.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(v.N))
+		}
 
 	case *frames.Cancel:
-		str.OnComplete()
-		i.removeStream(streamID)
+		if s, ok := str.(OnCancel); ok {
+			s.OnCancel()
+		}
 
 	case *frames.Payload:
 		// pl, ok := i.fragmentedPayloads[p.StreamID]
@@ -227,13 +272,10 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 
 		if v.Complete {
 			str.OnComplete()
-			i.removeStream(streamID)
 		}
 
 	case *frames.Error:
 		str.OnError(errors.New(v.Data))
-		str.OnComplete()
-		i.removeStream(streamID)
 	}
 
 	return nil
@@ -247,10 +289,7 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestResponseHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		i.sendError(streamID, errNotFound)
 		return
 	}
 
@@ -259,19 +298,19 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
 			})
+			if err != nil {
+				i.sendError(streamID, err)
+			}
 		},
 		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 	})
 }
@@ -284,129 +323,60 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetFireAndForgetHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		i.sendError(streamID, errNotFound)
 		return
 	}
 
 	p := payload.New(data, metadata[8:])
 	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s)
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p)
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+// acceptStream registers a stream of the peer, so that the frames that
+// follow the request find it.
+func (i *Handler) acceptStream(streamID uint32, input bool) (*proxy.Responder, bool) {
+	if _, exists := i.getStream(streamID); exists {
+		return nil, false
+	}
+	s := proxy.NewResponder(i.ctx, streamID, input, i.SendFrame, i.removeStream)
+	i.registerStream(s)
+	return s, true
+}
+
+func (i *Handler) handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < minMetadataLen {
+		s.Fail(errInvalidMetadata)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Fail(errNotFound)
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
-	f := handler(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handler(ctx, p), int(initialN))
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < minMetadataLen {
+		s.Fail(errInvalidMetadata)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Fail(errNotFound)
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
-	f := handler(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handler(ctx, p, s.Input()), int(initialN))
 }
 
 // func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
@@ -600,6 +570,12 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 // 	s.Request(int(initialN))
 // }
 
+func (i *Handler) getOpTable() operations.Table {
+	i.mu.RLock()
+	defer i.mu.RUnlock()
+	return i.opTable
+}
+
 func (i *Handler) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
 	for uint32(len(i.importedRR)) < index+1 {
 		i.importedRR = append(i.importedRR, nil)
@@ -657,11 +633,8 @@ func (i *Handler) getRequestChannelHandler(index uint32) invoke.RequestChannelHa
 }
 
 func (i *Handler) checkMetadata(streamID uint32, metadata []byte) bool {
-	if len(metadata) < 8 { // 48 before... but why?
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "Invalid metadata",
-		})
+	if len(metadata) < minMetadataLen {
+		i.sendError(streamID, errInvalidMetadata)
 		return false
 	}
 
@@ -686,12 +659,13 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
+type OnCancel interface {
+	OnCancel()
+}
+
 type requestStream struct {
 	ctx      context.Context
 	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
 }
 
 var _ = (proxy.Stream)((*requestStream)(nil))
@@ -704,22 +678,8 @@ func (r *requestStream) StreamID() uint32 {
 	return r.streamID
 }
 
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
+func (r *requestStream) OnNext(p payload.Payload) {}
 
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
+func (r *requestStream) OnComplete() {}
 
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
+func (r *requestStream) OnError(err error) {}
diff --git a/proxy/flux.go b/proxy/flux.go
index 6f0f588..bd27a9f 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,7 +10,9 @@ import (
 	"github.com/nanobus/iota/go/rx/flux"
 )
 
-func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream)) flux.Flux[payload.Payload] {
+// Flux returns the requesting side of a stream or, if there is an input,
+// of a channel. remove is called when neither direction is active anymore.
+func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream), remove func(uint32)) flux.Flux[payload.Payload] {
 	p := flux.NewProcessor[payload.Payload]()
 	ss := streamFlux{
 		ctx:       ctx,
@@ -18,7 +21,13 @@ func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[paylo
 		in:        in,
 		sendFrame: sendFrame,
 		register:  register,
-		first:     true,
+		remove:    remove,
+	}
+	if in == nil {
+		ss.sent = true
+		if request.FrameType == frames.FrameTypeRequestChannel {
+			ss.request.Complete = true
+		}
 	}
 	p.OnSubscribe(flux.OnSubscribe{
 		Request: ss.Request,
@@ -36,8 +45,18 @@ type streamFlux struct {
 	in         flux.Flux[payload.Payload]
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
-	first      bool
-	complete   bool
+	remove     func(uint32)
+
+	// orderMu keeps the request ahead of all other frames.
+	orderMu   sync.Mutex
+	requested bool
+
+	mu       sync.Mutex // guards the fields below
+	received bool       // nothing more is received
+	sent     bool       // nothing more is sent
+	removed  bool
+	inSub    rx.Subscription
+	pending  int // requested before there was a subscription
 }
 
 func (s *streamFlux) Context() context.Context {
@@ -54,11 +73,46 @@ func (s *streamFlux) OnNext(p payload.Payload) {
 
 func (s *streamFlux) OnComplete() {
 	s.Processor.Complete()
-	s.complete = true
+	s.end(true, false)
 }
 
+// OnError ends both directions.
 func (s *streamFlux) OnError(err error) {
 	s.Processor.Error(err)
+	if sub := s.end(true, true); sub != nil {
+		sub.Cancel()
+	}
+}
+
+// OnCancel ends the input of a channel.
+func (s *streamFlux) OnCancel() {
+	if sub := s.end(false, true); sub != nil {
+		sub.Cancel()
+	}
+}
+
+// end marks directions as ended and removes the stream with the last one.
+// It returns the subscription of the input if that had not ended before.
+func (s *streamFlux) end(received, sent bool) (sub rx.Subscription) {
+	s.mu.Lock()
+	if sent && !s.sent {
+		s.sent = true
+		sub = s.inSub
+	}
+	s.received = s.received || received
+	remove := s.received && s.sent && !s.removed
+	s.removed = s.removed || remove
+	s.mu.Unlock()
+	if remove {
+		s.remove(s.request.StreamID)
+	}
+	return sub
+}
+
+func (s *streamFlux) isReceived() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.received
 }
 
 func (s *streamFlux) Async() {
@@ -74,56 +128,103 @@ func (s *streamFlux) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamFlux) Request(n int) {
-	if s.complete {
+	if n > rx.RequestMax {
+		n = rx.RequestMax
+	}
+	s.orderMu.Lock()
+	if s.isReceived() {
+		s.orderMu.Unlock()
 		return
 	}
-	if s.first {
+	first := !s.requested
+	s.requested = true
+	var err error
+	if first {
 		s.request.InitialN = uint32(n)
-		s.first = false
-		s.sendFrame(&s.request)
-
-		if s.in != nil {
-			s.in.Subscribe(flux.Subscribe[payload.Payload]{
-				OnNext: func(p payload.Payload) {
-					s.sendFrame(&frames.Payload{
-						StreamID: s.request.StreamID,
-						Metadata: p.Metadata(),
-						Data:     p.Data(),
-						Next:     true,
-					})
-				},
-				OnComplete: func() {
-					s.sendFrame(&frames.Payload{
-						StreamID: s.request.StreamID,
-						Complete: true,
-					})
-				},
-				OnError: func(err error) {
-					s.sendFrame(&frames.Error{
-						StreamID: s.request.StreamID,
-						Data:     err.Error(),
-					})
-				},
-				NoRequest: true,
-			})
-		}
+		err = s.sendFrame(&s.request)
 	} else {
-		s.sendFrame(&frames.RequestN{
+		err = s.sendFrame(&frames.RequestN{
 			StreamID: s.request.StreamID,
 			N:        uint32(n),
 		})
 	}
+	s.orderMu.Unlock()
+	if err != nil {
+		s.OnError(err)
+		return
+	}
+
+	if first && s.in != nil {
+		s.subscribeInput()
+	}
 }
 
-func (s *streamFlux) Cancel() {
-	s.sendFrame(&frames.Cancel{
-		StreamID: s.request.StreamID,
+func (s *streamFlux) subscribeInput() {
+	s.in.Subscribe(flux.Subscribe[payload.Payload]{
+		OnNext: func(p payload.Payload) {
+			err := s.sendFrame(&frames.Payload{
+				StreamID: s.request.StreamID,
+				Metadata: p.Metadata(),
+				Data:     p.Data(),
+				Next:     true,
+			})
+			if err != nil {
+				s.fail(err)
+			}
+		},
+		OnComplete: func() {
+			s.sendFrame(&frames.Payload{
+				StreamID: s.request.StreamID,
+				Complete: true,
+			})
+			s.end(false, true)
+		},
+		OnError:   s.fail,
+		NoRequest: true,
 	})
+	sub := s.in.Subscription()
+	s.mu.Lock()
+	s.inSub = sub
+	ended := s.sent
+	n := s.pending
+	s.pending = 0
+	s.mu.Unlock()
+	if ended {
+		sub.Cancel()
+	} else if n > 0 {
+		sub.Request(n)
+	}
+}
+
+// fail ends both directions with an error that the responder is told.
+func (s *streamFlux) fail(err error) {
+	SendError(s.sendFrame, s.request.StreamID, err)
+	s.OnError(err)
+}
+
+func (s *streamFlux) Cancel() {
+	s.orderMu.Lock()
+	requested := s.requested
+	// There is nothing to send for a request that was never made.
+	s.end(true, !requested)
+	if requested {
+		s.sendFrame(&frames.Cancel{
+			StreamID: s.request.StreamID,
+		})
+	}
+	s.orderMu.Unlock()
 }
 
 func (s *streamFlux) DoRequest(n int) {
-	sub := s.in.Subscription()
-	sub.Request(n)
+	s.mu.Lock()
+	sub := s.inSub
+	if sub == nil {
+		s.pending += n
+	}
+	s.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
diff --git a/proxy/flux_host.go b/proxy/flux_host.go
new file mode 100644
index 0000000..86d0ad9
--- /dev/null
+++ b/proxy/flux_host.go
@@ -0,0 +1,17 @@
+//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi
+// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi
+
+package proxy
+
+import (
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+func (s *streamFlux) Block(sub flux.Subscribe[payload.Payload]) error {
+	if s.isReceived() {
+		return s.Processor.Block(sub)
+	}
+	// The stream has to be registered when it is subscribed.
+	return flux.Block[payload.Payload](s, sub)
+}
diff --git a/proxy/lookup.go b/proxy/lookup.go
index 431365e..3767dcf 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -43,6 +43,18 @@ func (l *Lookup) Get(id uint32) (Stream, bool) {
 	return nil, false
 }
 
+// Streams returns the streams that are registered.
+func (l *Lookup) Streams() []Stream {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
+	streams := make([]Stream, 0, l.count)
+	for n := l.head; n != nil; n = n.next {
+		streams = append(streams, n.stream)
+	}
+	return streams
+}
+
 func (l *Lookup) Add(s Stream) {
 	l.mu.Lock()
 	defer l.mu.Unlock()
diff --git a/proxy/mono.go b/proxy/mono.go
index 793a2a6..94011eb 100644
--- a/proxy/mono.go
+++ b/proxy/mono.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"errors"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,7 +10,11 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
-func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream)) mono.Mono[payload.Payload] {
+var errNoValue = errors.New("completed without a value")
+
+// Mono returns the requesting side of a request/response. remove is called
+// when it has ended.
+func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream), remove func(uint32)) mono.Mono[payload.Payload] {
 	m := mono.NewProcessor[payload.Payload]()
 	ss := streamMono{
 		ctx:       ctx,
@@ -17,6 +22,7 @@ func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(fra
 		request:   request,
 		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
 	}
 	return &ss
 }
@@ -29,6 +35,7 @@ type streamMono struct {
 	request    frames.RequestPayload
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
+	remove     func(uint32)
 }
 
 func (s *streamMono) Context() context.Context {
@@ -40,14 +47,17 @@ func (s *streamMono) StreamID() uint32 {
 }
 
 func (s *streamMono) OnNext(p payload.Payload) {
+	s.remove(s.request.StreamID)
 	s.Processor.Success(p)
 }
 
 func (s *streamMono) OnComplete() {
-	// Not implemented
+	// The value comes with or before the completion.
+	s.OnError(errNoValue)
 }
 
 func (s *streamMono) OnError(err error) {
+	s.remove(s.request.StreamID)
 	s.Processor.Error(err)
 }
 
@@ -67,6 +77,8 @@ func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[pa
 	s.subscribed = true
 	s.register(s)
 	s.Processor.Subscribe(sub)
-	s.sendFrame(&s.request)
+	if err := s.sendFrame(&s.request); err != nil {
+		s.OnError(err)
+	}
 	return s
 }
diff --git a/proxy/responder.go b/proxy/responder.go
new file mode 100644
index 0000000..d86fc68
--- /dev/null
+++ b/proxy/responder.go
@@ -0,0 +1,213 @@
+package proxy
+
+import (
+	"context"
+	"sync"
+
+	"github.com/nanobus/iota/go/internal/frames"
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+// Responder is the responding side of a stream or a channel.
+type Responder struct {
+	ctx       context.Context
+	streamID  uint32
+	sendFrame func(frames.Frame) error
+	remove    func(uint32)
+	in        flux.Processor[payload.Payload] // nil if there is no input
+
+	mu       sync.Mutex // guards the fields below
+	received bool       // nothing more is received
+	sent     bool       // nothing more is sent
+	removed  bool
+	sub      rx.Subscription
+	pending  int // requested before there was a subscription
+	ended    func()
+}
+
+var _ = (Stream)((*Responder)(nil))
+
+// NewResponder returns the responding side of a stream, or of a channel
+// if there is an input. remove is called when neither direction is active
+// anymore.
+func NewResponder(ctx context.Context, streamID uint32, input bool, sendFrame func(frames.Frame) error, remove func(uint32)) *Responder {
+	r := &Responder{
+		ctx:       ctx,
+		streamID:  streamID,
+		sendFrame: sendFrame,
+		remove:    remove,
+		received:  !input,
+	}
+	if input {
+		r.in = flux.NewProcessor[payload.Payload]()
+		r.in.OnSubscribe(flux.OnSubscribe{
+			Request: r.requestInput,
+			Cancel:  r.cancelInput,
+		})
+	}
+	return r
+}
+
+func (r *Responder) Context() context.Context {
+	return r.ctx
+}
+
+func (r *Responder) StreamID() uint32 {
+	return r.streamID
+}
+
+// Input returns what the requester of a channel sends.
+func (r *Responder) Input() flux.Flux[payload.Payload] {
+	return r.in
+}
+
+// OnEnd sets what is called once the output has ended.
+func (r *Responder) OnEnd(fn func()) {
+	r.mu.Lock()
+	r.ended = fn
+	r.mu.Unlock()
+}
+
+func (r *Responder) requestInput(n int) {
+	if n > rx.RequestMax {
+		n = rx.RequestMax
+	}
+	r.sendFrame(&frames.RequestN{
+		StreamID: r.streamID,
+		N:        uint32(n),
+	})
+}
+
+func (r *Responder) cancelInput() {
+	r.sendFrame(&frames.Cancel{
+		StreamID: r.streamID,
+	})
+	r.end(true, false)
+}
+
+// Respond sends what f emits, starting with a request for initialN items.
+func (r *Responder) Respond(f flux.Flux[payload.Payload], initialN int) {
+	f.Subscribe(flux.Subscribe[payload.Payload]{
+		OnNext: func(p payload.Payload) {
+			err := r.sendFrame(&frames.Payload{
+				StreamID: r.streamID,
+				Metadata: p.Metadata(),
+				Data:     p.Data(),
+				Next:     true,
+			})
+			if err != nil {
+				r.Fail(err)
+			}
+		},
+		OnComplete: func() {
+			r.sendFrame(&frames.Payload{
+				StreamID: r.streamID,
+				Complete: true,
+			})
+			r.end(false, true)
+		},
+		OnError:   r.Fail,
+		NoRequest: true,
+	})
+	sub := f.Subscription()
+	r.mu.Lock()
+	r.sub = sub
+	ended := r.sent
+	n := r.pending + initialN
+	r.pending = 0
+	r.mu.Unlock()
+	if ended {
+		sub.Cancel()
+	} else {
+		sub.Request(n)
+	}
+}
+
+// Fail ends both directions with an error that the requester is told.
+func (r *Responder) Fail(err error) {
+	SendError(r.sendFrame, r.streamID, err)
+	r.OnError(err)
+}
+
+// end marks directions as ended and removes the stream with the last one.
+// It returns the subscription of the output if that had not ended before.
+func (r *Responder) end(received, sent bool) (sub rx.Subscription) {
+	var ended func()
+	r.mu.Lock()
+	if sent && !r.sent {
+		r.sent = true
+		sub = r.sub
+		ended = r.ended
+	}
+	r.received = r.received || received
+	remove := r.received && r.sent && !r.removed
+	r.removed = r.removed || remove
+	r.mu.Unlock()
+	if remove {
+		r.remove(r.streamID)
+	}
+	if ended != nil {
+		ended()
+	}
+	return sub
+}
+
+// DoRequest asks the producer of the output for n items.
+func (r *Responder) DoRequest(n int) {
+	r.mu.Lock()
+	sub := r.sub
+	if sub == nil {
+		r.pending += n
+	}
+	r.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
+}
+
+func (r *Responder) OnNext(p payload.Payload) {
+	if r.in != nil {
+		r.in.Next(p)
+	}
+}
+
+func (r *Responder) OnComplete() {
+	if r.in != nil {
+		r.in.Complete()
+	}
+	r.end(true, false)
+}
+
+// OnError ends both directions.
+func (r *Responder) OnError(err error) {
+	if r.in != nil {
+		r.in.Error(err)
+	}
+	if sub := r.end(true, true); sub != nil {
+		sub.Cancel()
+	}
+}
+
+// OnCancel ends the output.
+func (r *Responder) OnCancel() {
+	if sub := r.end(false, true); sub != nil {
+		sub.Cancel()
+	}
+}
+
+// SendError ends the call of the peer with an error.
+func SendError(sendFrame func(frames.Frame) error, streamID uint32, err error) {
+	sendErr := sendFrame(&frames.Error{
+		StreamID: streamID,
+		Data:     err.Error(),
+	})
+	if sendErr != nil {
+		// The message may be what can not be sent.
+		sendFrame(&frames.Error{
+			StreamID: streamID,
+			Data:     sendErr.Error(),
+		})
+	}
+}
diff --git a/transport/wasmrs/guest/caller.go b/transport/wasmrs/guest/caller.go
index aae5224..c8ebb10 100644
--- a/transport/wasmrs/guest/caller.go
+++ b/transport/wasmrs/guest/caller.go
@@ -43,7 +43,7 @@ func (i *Caller) RequestResponse(ctx context.Context, p payload.Payload) mono.Mo
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, sendFrame, registerStream)
+	}, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -64,7 +64,7 @@ func (i *Caller) RequestStream(ctx context.Context, p payload.Payload) flux.Flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, sendFrame, registerStream)
+	}, nil, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -75,7 +75,7 @@ func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, sendFrame, registerStream)
+	}, in, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) getNextStreamID() uint32 {
diff --git a/transport/wasmrs/host/caller.go b/transport/wasmrs/host/caller.go
index 08062d7..63a7238 100644
--- a/transport/wasmrs/host/caller.go
+++ b/transport/wasmrs/host/caller.go
@@ -36,7 +36,7 @@ func (i *Instance) RequestResponse(ctx context.Context, p payload.Payload) mono.
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -57,7 +57,7 @@ func (i *Instance) RequestStream(ctx context.Context, p payload.Payload) flux.Fl
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -67,7 +67,7 @@ func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) getNextStreamID() uint32 {
-- 
2.43.0


From 3ad621c9a9b6786c0b3a167d2bf7a213cfc9c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 12/39] fix: host instance never blocks on full queues and ends
 calls when closed or trapped

---
 transport/wasmrs/host/instance.go | 492 ++++++++++++++----------------
 1 file changed, 237 insertions(+), 255 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 93dd935..90e98e7 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -6,26 +6,26 @@ import (
 	"errors"
 	"fmt"
 	"sync"
-	"sync/atomic"
 
 	"github.com/tetratelabs/wazero/api"
 
+	"github.com/nanobus/iota/go/internal/buffer"
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
+	"github.com/nanobus/iota/go/internal/u24"
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
 	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
 type Instance struct {
 	ctx       context.Context
 	m         api.Module
-	sendCh    chan frames.Frame
-	recvCh    chan []byte
+	sendBuf   *buffer.Unbounded[frames.Frame]
+	recvBuf   *buffer.Unbounded[received]
 	sendFn    api.Function
 	sendPtr   uint32
 	sendSize  uint32
@@ -40,15 +40,19 @@ type Instance struct {
 	// increment by 2 sequentially, such as 2, 4, 6, 8, etc.
 	hostStreams proxy.Lookup
 
-	activeRequests atomic.Int64
-	closing        atomic.Bool
-	closed         chan struct{}
-	once           sync.Once
+	activeMu       sync.Mutex // guards the fields below
+	activeRequests int
+	closing        bool
+	closed         bool
+
+	idle chan struct{} // closed when closing and nothing is active
+	once sync.Once
 
 	maxFrameSize       uint32
 	fragmentedPayloads map[uint32]fragmentedPayload
 	operations         operations.Table
 
+	importedMu   sync.RWMutex // guards the fields below
 	importedRR   []invoke.RequestResponseHandler
 	importedRFNF []invoke.FireAndForgetHandler
 	importedRS   []invoke.RequestStreamHandler
@@ -62,6 +66,27 @@ type fragmentedPayload struct {
 	data      []byte
 }
 
+// received is a frame of the guest or the error that ends all streams.
+type received struct {
+	frame []byte
+	err   error
+}
+
+// lengthFieldSize is the size of the length that precedes a frame.
+const lengthFieldSize = 3
+
+// minMetadataLen is the length of an operation and a parent stream ID.
+const minMetadataLen = 8 // 48 before... but why?
+
+var (
+	errClosed          = errors.New("instance closed")
+	errFrameTooLarge   = errors.New("frame does not fit in the buffer of the guest")
+	errMalformed       = errors.New("guest sent a malformed frame")
+	errNotFound        = errors.New("not_found")
+	errInvalidMetadata = errors.New("Invalid metadata")
+	errNoMemory        = errors.New("buffer is outside of the memory of the guest")
+)
+
 type instanceKey struct{}
 
 func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
@@ -76,13 +101,13 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	i := &Instance{
 		ctx:                ctx,
 		m:                  m,
-		sendCh:             make(chan frames.Frame, 100),
-		recvCh:             make(chan []byte, 100),
+		sendBuf:            buffer.NewUnbounded[frames.Frame](),
+		recvBuf:            buffer.NewUnbounded[received](),
 		sendFn:             send,
 		maxFrameSize:       1024 * 1024,
 		fragmentedPayloads: make(map[uint32]fragmentedPayload),
 		sendSize:           16 * 1024,
-		closed:             make(chan struct{}),
+		idle:               make(chan struct{}),
 	}
 
 	ctx = context.WithValue(ctx, instanceKey{}, i)
@@ -92,6 +117,9 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	}
 
 	f := m.ExportedFunction("__wasmrs_op_list_request")
+	if f == nil {
+		return nil, errors.New("module does not export __wasmrs_op_list_request")
+	}
 	_, err = f.Call(ctx)
 	if err != nil {
 		return nil, err
@@ -105,22 +133,51 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 
 func (i *Instance) Close() error {
 	i.once.Do(func() {
-		i.closing.Store(true)
-
-		if i.activeRequests.Load() > 0 {
-			<-i.closed
+		i.activeMu.Lock()
+		i.closing = true
+		wait := i.activeRequests > 0
+		i.closed = !wait
+		i.activeMu.Unlock()
+		if wait {
+			<-i.idle
 		}
 
-		close(i.sendCh)
-		close(i.recvCh)
+		i.sendBuf.Dispose()
+		i.failStreams(errClosed)
+		i.recvBuf.Dispose()
 	})
 
 	return nil
 }
 
+// addActiveRequest returns false if the instance is closed.
+func (i *Instance) addActiveRequest() bool {
+	i.activeMu.Lock()
+	defer i.activeMu.Unlock()
+	if i.closed {
+		return false
+	}
+	i.activeRequests++
+	return true
+}
+
 func (i *Instance) reduceActiveRequests() {
-	if i.activeRequests.Add(-1) <= 0 && i.closing.Load() {
-		close(i.closed)
+	i.activeMu.Lock()
+	defer i.activeMu.Unlock()
+	i.activeRequests--
+	if i.activeRequests == 0 && i.closing && !i.closed {
+		i.closed = true
+		close(i.idle)
+	}
+}
+
+// failStreams ends all streams with an error.
+func (i *Instance) failStreams(err error) {
+	for _, s := range i.guestStreams.Streams() {
+		s.OnError(err)
+	}
+	for _, s := range i.hostStreams.Streams() {
+		s.OnError(err)
 	}
 }
 
@@ -149,44 +206,58 @@ func (i *Instance) getStream(streamID uint32) (proxy.Stream, bool) {
 }
 
 func (i *Instance) SendFrame(f frames.Frame) error {
-	// if frag, ok := f.(frames.Fragmentable); ok {
-	// 	if frames := frag.Fragment(i.maxFrameSize); frames != nil {
-	// 		for _, f := range frames {
-	// 			i.sendCh <- f
-	// 		}
-	// 	} else {
-	// 		i.sendCh <- f
-	// 	}
-	// } else {
-	// 	i.sendCh <- f
-	// }
-	i.sendCh <- f
+	if uint64(f.Size())+lengthFieldSize > uint64(i.sendSize) {
+		return errFrameTooLarge
+	}
+	if !i.sendBuf.Put(f) {
+		return errClosed
+	}
 	return nil
 }
 
+func (i *Instance) sendError(streamID uint32, err error) {
+	proxy.SendError(i.SendFrame, streamID, err)
+}
+
 func (i *Instance) setBuffers(sendPtr, recvPtr uint32) {
 	i.sendPtr = sendPtr
 	i.recvPtr = recvPtr
 }
 
 func (i *Instance) sendLoop() {
-	var lengthBytes [4]byte
 	ctx := context.WithValue(i.ctx, instanceKey{}, i)
 
-	for f := range i.sendCh {
-		mem := i.m.Memory()
-		buf, _ := mem.Read(i.sendPtr, i.sendSize)
-		byteCount := f.Size()
+	// The guest is not entered anymore.
+	defer i.m.Close(i.ctx)
+
+	for f := range i.sendBuf.Get() {
+		if err := i.sendOne(ctx, f); err != nil {
+			// The guest may have lost anything it was working on. What
+			// it has sent before is handled first.
+			i.recvBuf.Put(received{err: err})
+		}
+		i.sendBuf.Load()
+	}
+}
 
-		// Encode length and frame data.
-		binary.BigEndian.PutUint32(lengthBytes[:], byteCount)
-		copy(buf[0:], lengthBytes[1:4])
-		f.Encode(buf[3:])
+func (i *Instance) sendOne(ctx context.Context, f frames.Frame) error {
+	var lengthBytes [4]byte
 
-		// Send frame data to guest.
-		i.sendFn.Call(ctx, uint64(3+byteCount))
+	buf, ok := i.m.Memory().Read(i.sendPtr, i.sendSize)
+	if !ok {
+		return errNoMemory
 	}
+	byteCount := f.Size()
+
+	// Set the length prefix and encode the frame
+	binary.BigEndian.PutUint32(lengthBytes[:], byteCount)
+	copy(buf[0:], lengthBytes[1:4])
+	f.Encode(buf[lengthFieldSize:])
+
+	_, err := i.sendFn.Call(ctx, uint64(lengthFieldSize+byteCount))
+	return err
 }
+
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
@@ -198,23 +269,37 @@ func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
 }
 
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
-	buffer, _ := i.m.Memory().Read(i.recvPtr, recvPos)
+	buf, ok := i.m.Memory().Read(i.recvPtr, recvPos)
+	if !ok {
+		i.recvBuf.Put(received{err: errNoMemory})
+		return
+	}
 
-	for len(buffer) > 0 {
-		var length [4]byte
-		copy(length[1:4], buffer[0:3])
-		buffer = buffer[3:]
-		frameLength := binary.BigEndian.Uint32(length[0:4])
-		buf := make([]byte, int(frameLength))
-		copy(buf, buffer)
-		i.recvCh <- buf
-		buffer = buffer[frameLength:]
+	for len(buf) > 0 {
+		frameLength := -1
+		if len(buf) >= lengthFieldSize {
+			frameLength = u24.ReadUint24ToInt(buf)
+			buf = buf[lengthFieldSize:]
+		}
+		if frameLength < frames.FrameHeaderLen || frameLength > len(buf) {
+			i.recvBuf.Put(received{err: errMalformed})
+			return
+		}
+		frame := make([]byte, frameLength)
+		copy(frame, buf)
+		i.recvBuf.Put(received{frame: frame})
+		buf = buf[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for buf := range i.recvCh {
-		i.recvOne(buf)
+	for r := range i.recvBuf.Get() {
+		if r.err != nil {
+			i.failStreams(r.err)
+		} else {
+			i.recvOne(r.frame)
+		}
+		i.recvBuf.Load()
 	}
 }
 
@@ -242,10 +327,7 @@ func (i *Instance) recvOne(data []byte) {
 	case frames.FrameTypeRequestResponse:
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
-			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
-				Data:     err.Error(),
-			})
+			i.sendError(header.StreamID(), err)
 			return
 		}
 		if i.checkFollows(&rr) {
@@ -253,16 +335,15 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		i.activeRequests.Add(1)
+		if !i.addActiveRequest() {
+			return
+		}
 		go i.handleRequestResponse(ctx, rr.StreamID, rr.Data, rr.Metadata)
 
 	case frames.FrameTypeRequestFNF:
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
-			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
-				Data:     err.Error(),
-			})
+			i.sendError(header.StreamID(), err)
 			return
 		}
 		if i.checkFollows(&rr) {
@@ -275,10 +356,7 @@ func (i *Instance) recvOne(data []byte) {
 	case frames.FrameTypeRequestStream:
 		var rs frames.RequestPayload
 		if err := rs.Decode(&header, data); err != nil {
-			i.SendFrame(&frames.Error{
-				StreamID: rs.StreamID,
-				Data:     err.Error(),
-			})
+			i.sendError(header.StreamID(), err)
 			return
 		}
 		if i.checkFollows(&rs) {
@@ -286,16 +364,16 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		i.activeRequests.Add(1)
-		go i.handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+		s, ok := i.acceptStream(rs.StreamID, rs.Metadata, false)
+		if !ok {
+			return
+		}
+		go i.handleRequestStream(s.Context(), s, rs.Data, rs.Metadata, rs.InitialN)
 
 	case frames.FrameTypeRequestChannel:
 		var rc frames.RequestPayload
 		if err := rc.Decode(&header, data); err != nil {
-			i.SendFrame(&frames.Error{
-				StreamID: rc.StreamID,
-				Data:     err.Error(),
-			})
+			i.sendError(header.StreamID(), err)
 			return
 		}
 		if i.checkFollows(&rc) {
@@ -303,25 +381,30 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		i.activeRequests.Add(1)
-		go i.handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+		s, ok := i.acceptStream(rc.StreamID, rc.Metadata, true)
+		if !ok {
+			return
+		}
+		if rc.Complete {
+			s.OnComplete()
+		}
+		go i.handleRequestChannel(s.Context(), s, rc.Data, rc.Metadata, rc.InitialN)
 
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
 		if err := rn.Decode(&header, data); err != nil {
-			i.SendFrame(&frames.Error{
-				StreamID: rn.StreamID,
-				Data:     err.Error(),
-			})
+			i.sendError(header.StreamID(), err)
 			return
 		}
 
-		s := str.(DoRequest)
-		go s.DoRequest(int(rn.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(rn.N))
+		}
 
 	case frames.FrameTypeCancel:
-		str.OnComplete()
-		i.removeStream(header.StreamID())
+		if s, ok := str.(OnCancel); ok {
+			s.OnCancel()
+		}
 
 	case frames.FrameTypePayload:
 		var p frames.Payload
@@ -380,7 +463,6 @@ func (i *Instance) recvOne(data []byte) {
 
 		if p.Complete {
 			str.OnComplete()
-			i.removeStream(header.StreamID())
 		}
 
 	case frames.FrameTypeError:
@@ -389,49 +471,71 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 		str.OnError(errors.New(p.Data))
-		str.OnComplete()
-		i.removeStream(header.StreamID())
 	}
 }
 
-func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
-	if !i.checkMetadata(streamID, metadata) {
-		return
+// acceptStream registers a stream of the guest, so that the frames that
+// follow the request find it.
+func (i *Instance) acceptStream(streamID uint32, metadata []byte, input bool) (*proxy.Responder, bool) {
+	if _, exists := i.getStream(streamID); exists {
+		return nil, false
+	}
+	if !i.addActiveRequest() {
+		return nil, false
 	}
+	ctx := i.parentContext(context.Background(), metadata)
+	s := proxy.NewResponder(ctx, streamID, input, i.SendFrame, i.removeStream)
+	s.OnEnd(i.reduceActiveRequests)
+	i.registerStream(s)
+	return s, true
+}
 
-	operationID := binary.BigEndian.Uint32(metadata)
+// parentContext returns the context of the parent stream if there is one.
+func (i *Instance) parentContext(ctx context.Context, metadata []byte) context.Context {
+	if len(metadata) < minMetadataLen {
+		return ctx
+	}
 	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
 	if parentStreamID != 0 {
 		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
+			return stream.Context()
 		}
 	}
+	return ctx
+}
+
+func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
+	if !i.checkMetadata(streamID, metadata) {
+		i.reduceActiveRequests()
+		return
+	}
+
+	operationID := binary.BigEndian.Uint32(metadata)
+	ctx = i.parentContext(ctx, metadata)
 	handler := i.getRequestResponseHandler(operationID)
 	if handler == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		i.sendError(streamID, errNotFound)
 		i.reduceActiveRequests()
 		return
 	}
 	p := payload.New(data, metadata)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
 			})
-			i.reduceActiveRequests()
+			if err != nil {
+				i.sendError(streamID, err)
+			}
 		},
 		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
+		},
+		Finally: func(rx.SignalType) {
 			i.reduceActiveRequests()
 		},
 	})
@@ -443,152 +547,53 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
+	ctx = i.parentContext(ctx, metadata)
 	handler := i.getFireAndForgetHandler(operationID)
 	if handler == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		i.sendError(streamID, errNotFound)
 		return
 	}
 	p := payload.New(data, metadata)
 	handler(ctx, p)
 }
 
-func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < minMetadataLen {
+		s.Fail(errInvalidMetadata)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handlerRS := i.getRequestStreamHandler(operationID)
 	if handlerRS == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Fail(errNotFound)
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	f := handlerRS(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-			i.reduceActiveRequests()
-		},
-		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-			i.reduceActiveRequests()
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handlerRS(ctx, p), int(initialN))
 }
 
-func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < minMetadataLen {
+		s.Fail(errInvalidMetadata)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handlerRC := i.getRequestChannelHandler(operationID)
 	if handlerRC == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
-		i.reduceActiveRequests()
+		s.Fail(errNotFound)
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.SendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.SendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-				i.reduceActiveRequests()
-			},
-		})
-	})
-	f := handlerRC(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-			i.reduceActiveRequests()
-		},
-		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-			i.reduceActiveRequests()
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handlerRC(ctx, p, s.Input()), int(initialN))
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRR)) < index+1 {
 		i.importedRR = append(i.importedRR, nil)
 	}
@@ -596,6 +601,8 @@ func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.Reques
 }
 
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRR)) <= index {
 		return nil
 	}
@@ -603,6 +610,8 @@ func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestRespons
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRFNF)) < index+1 {
 		i.importedRFNF = append(i.importedRFNF, nil)
 	}
@@ -610,6 +619,8 @@ func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndF
 }
 
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRFNF)) <= index {
 		return nil
 	}
@@ -617,6 +628,8 @@ func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHan
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRS)) < index+1 {
 		i.importedRS = append(i.importedRS, nil)
 	}
@@ -624,6 +637,8 @@ func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestS
 }
 
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRS)) <= index {
 		return nil
 	}
@@ -631,6 +646,8 @@ func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHan
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRC)) < index+1 {
 		i.importedRC = append(i.importedRC, nil)
 	}
@@ -638,6 +655,8 @@ func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.Request
 }
 
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRC)) <= index {
 		return nil
 	}
@@ -645,11 +664,8 @@ func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelH
 }
 
 func (i *Instance) checkMetadata(streamID uint32, metadata []byte) bool {
-	if len(metadata) < 8 { // 48 before... but why?
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "Invalid metadata",
-		})
+	if len(metadata) < minMetadataLen {
+		i.sendError(streamID, errInvalidMetadata)
 		return false
 	}
 
@@ -674,40 +690,6 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+type OnCancel interface {
+	OnCancel()
 }
-- 
2.43.0


From c6d49c00b457794358ea4ee0de777ce2154cd797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 13/39] fix: guest ends streams once per direction and refuses
 frames that do not fit

---
 transport/wasmrs/guest/guest.go | 182 +++++++-------------------------
 1 file changed, 41 insertions(+), 141 deletions(-)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 6e7218a..982fb70 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -12,8 +12,6 @@ import (
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -34,6 +32,8 @@ var (
 	fragmentedPayloads map[uint32]fragmentedPayload
 )
 
+var errFrameTooLarge = errors.New("frame does not fit in the buffer of the host")
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -106,7 +106,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -122,7 +122,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -138,7 +138,7 @@ func GuestSend(endPos uint32) {
 			var rs frames.RequestPayload
 			if err := rs.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rs.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -154,34 +154,36 @@ func GuestSend(endPos uint32) {
 			var rc frames.RequestPayload
 			if err := rc.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rc.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 			if checkFollows(&rc) {
 				// Will be processed under frames.FrameTypePayload
 				continue
 			}
 
-			handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+			handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN, rc.Complete)
 
 		case frames.FrameTypeRequestN:
 			var rn frames.RequestN
 			if err := rn.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rn.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 
-			s := str.(DoRequest)
-			s.DoRequest(int(rn.N))
+			if s, ok := str.(DoRequest); ok {
+				s.DoRequest(int(rn.N))
+			}
 
 		case frames.FrameTypeCancel:
-			str.OnComplete()
-			removeStream(header.StreamID())
+			if s, ok := str.(OnCancel); ok {
+				s.OnCancel()
+			}
 
 		case frames.FrameTypePayload:
 			var p frames.Payload
@@ -243,7 +245,6 @@ func GuestSend(endPos uint32) {
 
 			if p.Complete {
 				str.OnComplete()
-				removeStream(header.StreamID())
 			}
 
 		case frames.FrameTypeError:
@@ -252,8 +253,6 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 			str.OnError(errors.New(p.Data))
-			str.OnComplete()
-			removeStream(header.StreamID())
 		}
 	}
 }
@@ -274,23 +273,22 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	ctx = proxy.WithContext(ctx, proxy.NewResponder(ctx, streamID, false, sendFrame, removeStream))
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			err := sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
 			})
+			if err != nil {
+				proxy.SendError(sendFrame, streamID, err)
+			}
 		},
 		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			proxy.SendError(sendFrame, streamID, err)
 		},
 	})
 }
@@ -311,9 +309,7 @@ func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	ctx = proxy.WithContext(ctx, proxy.NewResponder(ctx, streamID, false, sendFrame, removeStream))
 	handler(ctx, p)
 }
 
@@ -333,39 +329,13 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
+	s := proxy.NewResponder(ctx, streamID, false, sendFrame, removeStream)
+	registerStream(s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
-	f := handler(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handler(ctx, p), int(initialN))
 }
 
-func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32, complete bool) {
 	if !checkMetadata(streamID, metadata) {
 		return
 	}
@@ -381,51 +351,12 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
-	f := handler(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s := proxy.NewResponder(ctx, streamID, true, sendFrame, removeStream)
+	registerStream(s) // Need to register for RequestN frames
+	if complete {
+		s.OnComplete()
+	}
+	s.Respond(handler(ctx, p, s.Input()), int(initialN))
 }
 
 func checkMetadata(streamID uint32, metadata []byte) bool {
@@ -519,59 +450,28 @@ func sendFrame(f frames.Frame) error {
 	// } else {
 	// 	doSendFrame(f)
 	// }
-	doSendFrame(f)
-	return nil
+	return doSendFrame(f)
 }
 
-func doSendFrame(f frames.Frame) {
+func doSendFrame(f frames.Frame) error {
 	byteLength := f.Size()
+	if uint64(byteLength)+3 > uint64(len(hostBuffer)) {
+		return errFrameTooLarge
+	}
 	var length [4]byte
 	binary.BigEndian.PutUint32(length[0:4], byteLength)
 	copy(hostBuffer[0:3], length[1:4])
 	f.Encode(hostBuffer[3:])
 	hostSend(byteLength + 3)
+	return nil
 }
 
 type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+type OnCancel interface {
+	OnCancel()
 }
 
 //go:inline
-- 
2.43.0


From a144f11c61c38a0f2d25703d54d505915e158e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 14/39] fix: mesh is safe for concurrent use and addresses
 calls to the current destination

---
 transport/wasmrs/mesh/mesh.go | 111 +++++++++++++++++++---------------
 1 file changed, 61 insertions(+), 50 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 0ba06f8..894c3f7 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -20,7 +21,9 @@ import (
 
 type (
 	Mesh struct {
-		verbose     bool
+		verbose bool
+
+		mu          sync.RWMutex // guards the fields below
 		instances   map[string]*host.Instance
 		exports     map[string]map[string]*atomic.Pointer[destination]
 		unsatisfied []*pending
@@ -37,6 +40,9 @@ type (
 	}
 )
 
+// metadataLen is the length of an operation and a parent stream ID.
+const metadataLen = 8
+
 type Option func(*Mesh)
 
 func WithVerbose() Option {
@@ -60,12 +66,7 @@ func New(opts ...Option) *Mesh {
 }
 
 func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
-
-	ptr, ok := ns[operation]
+	ptr, ok := m.lookup(namespace, operation)
 	if !ok {
 		return nil
 	}
@@ -75,12 +76,7 @@ func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string,
 }
 
 func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p payload.Payload) {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return
-	}
-
-	ptr, ok := ns[operation]
+	ptr, ok := m.lookup(namespace, operation)
 	if !ok {
 		return
 	}
@@ -90,12 +86,7 @@ func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p
 }
 
 func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p payload.Payload) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
-
-	ptr, ok := ns[operation]
+	ptr, ok := m.lookup(namespace, operation)
 	if !ok {
 		return nil
 	}
@@ -105,12 +96,7 @@ func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p
 }
 
 func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
-
-	ptr, ok := ns[operation]
+	ptr, ok := m.lookup(namespace, operation)
 	if !ok {
 		return nil
 	}
@@ -119,8 +105,23 @@ func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string,
 	return dest.RequestChannel(ctx, p, in)
 }
 
+// lookup returns what points to the current destination of an operation.
+func (m *Mesh) lookup(namespace, operation string) (*atomic.Pointer[destination], bool) {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+	ptr, ok := m.exports[namespace][operation]
+	return ptr, ok
+}
+
 func (m *Mesh) Close() {
+	m.mu.RLock()
+	instances := make([]*host.Instance, 0, len(m.instances))
 	for _, inst := range m.instances {
+		instances = append(instances, inst)
+	}
+	m.mu.RUnlock()
+
+	for _, inst := range instances {
 		inst.Close()
 	}
 }
@@ -154,6 +155,9 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 		return nil, err
 	}
 
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	// Close previously loaded instance.
 	existing, ok := m.instances[filename]
 	if ok {
@@ -244,50 +248,57 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 	if !ok {
 		return false
 	}
-	dest := ptr.Load()
 
+	// The destination is looked up by every call, since it changes when the
+	// module that exports the operation is loaded again.
 	switch op.Type {
 	case operations.RequestResponse:
-		inst.SetRequestResponseHandler(op.Index, dest.RequestResponse)
+		inst.SetRequestResponseHandler(op.Index, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+			return ptr.Load().RequestResponse(ctx, p)
+		})
 	case operations.FireAndForget:
-		inst.SetFireAndForgetHandler(op.Index, dest.FireAndForget)
+		inst.SetFireAndForgetHandler(op.Index, func(ctx context.Context, p payload.Payload) {
+			ptr.Load().FireAndForget(ctx, p)
+		})
 	case operations.RequestStream:
-		inst.SetRequestStreamHandler(op.Index, dest.RequestStream)
+		inst.SetRequestStreamHandler(op.Index, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestStream(ctx, p)
+		})
 	case operations.RequestChannel:
-		inst.SetRequestChannelHandler(op.Index, dest.RequestChannel)
+		inst.SetRequestChannelHandler(op.Index, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestChannel(ctx, p, in)
+		})
 	}
 
 	return true
 }
 
-func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+// address returns the payload with metadata that names the operation. The
+// metadata of the caller is not changed.
+func (d *destination) address(p payload.Payload) payload.Payload {
 	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestResponse(ctx, p)
+	size := len(md)
+	if size < metadataLen {
+		size = metadataLen
+	}
+	addressed := make([]byte, size)
+	copy(addressed, md)
+	binary.BigEndian.PutUint32(addressed, d.index)
+	return payload.New(p.Data(), addressed)
+}
+
+func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+	return d.instance.RequestResponse(ctx, d.address(p))
 }
 
 func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	d.instance.FireAndForget(ctx, p)
+	d.instance.FireAndForget(ctx, d.address(p))
 }
 
 func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestStream(ctx, p)
+	return d.instance.RequestStream(ctx, d.address(p))
 }
 
 func (d *destination) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestChannel(ctx, p, in)
+	return d.instance.RequestChannel(ctx, d.address(p), in)
 }
-- 
2.43.0


From 0a17e1e9fd97f0b0dcd6d8a09b7364172659c616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:05 +0000
Subject: [PATCH 15/39] fix: setup frames do not count the token twice

---
 internal/frames/setup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index 1a5f364..3325653 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -156,7 +156,7 @@ func (f *Setup) Size() uint32 {
 
 	metadataLen := uint32(len(f.Metadata))
 	tokenLen := uint32(len(f.Token))
-	size += metadataLen + tokenLen + uint32(len(f.Data)+len(f.Token)+len(f.MimeMetadata)+len(f.MimeData))
+	size += metadataLen + tokenLen + uint32(len(f.Data)+len(f.MimeMetadata)+len(f.MimeData))
 	if tokenLen > 0 {
 		size += 2
 	}
-- 
2.43.0


From cb1eafa827167bc44996d2dae0601ed5a0f46957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:05 +0000
Subject: [PATCH 16/39] fix: request frames carry the follows flag

---
 internal/frames/request_payload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index c06e975..e59ce94 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -77,6 +77,9 @@ func (f *RequestPayload) Encode(buf []byte) {
 	if f.FrameType == FrameTypeRequestChannel && f.Complete {
 		flags |= FlagComplete
 	}
+	if f.Follows {
+		flags |= FlagFollow
+	}
 
 	if metadataLen > 0 {
 		flags |= FlagMetadata
-- 
2.43.0


From 5bf3dac6bac8beddc12ff6a35a3991567a63ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:50 +0000
Subject: [PATCH 17/39] fix: setup frames carry durations over four seconds

---
 internal/frames/setup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index 3325653..9b05bb4 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -117,8 +117,8 @@ func (f *Setup) Encode(buf []byte) {
 
 	binary.BigEndian.PutUint16(payload, f.MajorVersion)
 	binary.BigEndian.PutUint16(payload[2:], f.MinorVersion)
-	binary.BigEndian.PutUint32(payload[4:], uint32(f.TimeBetweenKeepalive)/uint32(time.Millisecond))
-	binary.BigEndian.PutUint32(payload[8:], uint32(f.MaxLifetime)/uint32(time.Millisecond))
+	binary.BigEndian.PutUint32(payload[4:], uint32(f.TimeBetweenKeepalive/time.Millisecond))
+	binary.BigEndian.PutUint32(payload[8:], uint32(f.MaxLifetime/time.Millisecond))
 
 	payload = payload[12:]
 
-- 
2.43.0


From cdd0f22466d1238989d1361c4acbb4631fc6e4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:17 +0000
Subject: [PATCH 18/39] fix: frames that arrive together with the end of the
 connection are not lost

---
 transport/rsocket/decoder.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/transport/rsocket/decoder.go b/transport/rsocket/decoder.go
index fabe5c4..bf68dbe 100644
--- a/transport/rsocket/decoder.go
+++ b/transport/rsocket/decoder.go
@@ -43,9 +43,7 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 }
 
 func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
-	if eof {
-		return
-	}
+	// At the end of the input, frames that are complete still count.
 	if len(data) < lengthFieldSize {
 		return
 	}
-- 
2.43.0


From 7e2da073953d08371cf5b5eed62146ee51584741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:39 +0000
Subject: [PATCH 19/39] fix: blocking on a failed flux calls the subscriber

---
 rx/flux/flux.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 4e9153d..4d479e2 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -59,7 +59,8 @@ func (e errorFlow[T]) Notify(fn rx.FnFinally) {
 	fn(rx.SignalError)
 }
 
-func (e errorFlow[T]) Block(_ Subscribe[T]) error {
+func (e errorFlow[T]) Block(sub Subscribe[T]) error {
+	e.Subscribe(sub)
 	return e.err
 }
 
-- 
2.43.0


From 37386653ec3d488d7c45015c47b598648a5fe170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:59 +0000
Subject: [PATCH 20/39] fix: a processor that ended before it had a subscriber
 takes no items

---
 rx/flux/processor.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rx/flux/processor.go b/rx/flux/processor.go
index c6ee507..5436850 100644
--- a/rx/flux/processor.go
+++ b/rx/flux/processor.go
@@ -40,14 +40,15 @@ func NewProcessor[T any]() Processor[T] {
 	return p
 }
 
-func (p *processor[T]) getSink() Sink[T] {
-	p.mu.Lock()
-	defer p.mu.Unlock()
-	return p.sink
-}
-
 func (p *processor[T]) Next(value T) {
-	if sink := p.getSink(); sink != nil {
+	p.mu.Lock()
+	sink := p.sink
+	if p.completed || p.failed {
+		// Has ended before there was a subscriber.
+		sink = nil
+	}
+	p.mu.Unlock()
+	if sink != nil {
 		sink.Next(value)
 	}
 }
-- 
2.43.0


From 92005d5a88ac4a3afea386abeebfba2ae0e10cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:47 +0000
Subject: [PATCH 21/39] fix: the first outcome signaled to a processor before
 it has a subscriber counts

---
 rx/flux/processor.go | 10 ++++++++--
 rx/mono/processor.go | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/rx/flux/processor.go b/rx/flux/processor.go
index 5436850..3afc0fd 100644
--- a/rx/flux/processor.go
+++ b/rx/flux/processor.go
@@ -56,7 +56,10 @@ func (p *processor[T]) Next(value T) {
 func (p *processor[T]) Complete() {
 	p.mu.Lock()
 	sink := p.sink
-	if sink == nil && !p.failed {
+	if p.completed || p.failed {
+		// Has ended before there was a subscriber.
+		sink = nil
+	} else if sink == nil {
 		p.completed = true
 	}
 	p.mu.Unlock()
@@ -68,7 +71,10 @@ func (p *processor[T]) Complete() {
 func (p *processor[T]) Error(err error) {
 	p.mu.Lock()
 	sink := p.sink
-	if sink == nil && !p.completed && !p.failed {
+	if p.completed || p.failed {
+		// Has ended before there was a subscriber.
+		sink = nil
+	} else if sink == nil {
 		p.failed = true
 		p.err = err
 	}
diff --git a/rx/mono/processor.go b/rx/mono/processor.go
index 3e7fc4f..9cbac86 100644
--- a/rx/mono/processor.go
+++ b/rx/mono/processor.go
@@ -37,7 +37,10 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 func (p *ProcessorImpl[T]) Success(value T) {
 	p.mu.Lock()
 	sink := p.sink
-	if sink == nil && p.success == nil && !p.failed {
+	if p.success != nil || p.failed {
+		// The first outcome was signaled before there was a subscriber.
+		sink = nil
+	} else if sink == nil {
 		p.success = &value
 	}
 	p.mu.Unlock()
@@ -49,7 +52,10 @@ func (p *ProcessorImpl[T]) Success(value T) {
 func (p *ProcessorImpl[T]) Error(err error) {
 	p.mu.Lock()
 	sink := p.sink
-	if sink == nil && p.success == nil && !p.failed {
+	if p.success != nil || p.failed {
+		// The first outcome was signaled before there was a subscriber.
+		sink = nil
+	} else if sink == nil {
 		p.failed = true
 		p.err = err
 	}
-- 
2.43.0


From d12895e05d87bbca4729eae8a0c1749f50eb1358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:05 +0000
Subject: [PATCH 22/39] fix: operations of different types with the same name
 do not hide each other in a mesh

---
 transport/wasmrs/mesh/mesh.go | 41 +++++++++++++++++------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 894c3f7..4a1065f 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -25,10 +25,18 @@ type (
 
 		mu          sync.RWMutex // guards the fields below
 		instances   map[string]*host.Instance
-		exports     map[string]map[string]*atomic.Pointer[destination]
+		exports     map[operationKey]*atomic.Pointer[destination]
 		unsatisfied []*pending
 	}
 
+	// operationKey identifies an operation. Operations of different types
+	// can have the same name.
+	operationKey struct {
+		requestType operations.RequestType
+		namespace   string
+		operation   string
+	}
+
 	destination struct {
 		instance *host.Instance
 		index    uint32
@@ -54,7 +62,7 @@ func WithVerbose() Option {
 func New(opts ...Option) *Mesh {
 	m := Mesh{
 		instances:   make(map[string]*host.Instance),
-		exports:     map[string]map[string]*atomic.Pointer[destination]{},
+		exports:     make(map[operationKey]*atomic.Pointer[destination]),
 		unsatisfied: make([]*pending, 0, 10),
 	}
 
@@ -66,7 +74,7 @@ func New(opts ...Option) *Mesh {
 }
 
 func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
-	ptr, ok := m.lookup(namespace, operation)
+	ptr, ok := m.lookup(operations.RequestResponse, namespace, operation)
 	if !ok {
 		return nil
 	}
@@ -76,7 +84,7 @@ func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string,
 }
 
 func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p payload.Payload) {
-	ptr, ok := m.lookup(namespace, operation)
+	ptr, ok := m.lookup(operations.FireAndForget, namespace, operation)
 	if !ok {
 		return
 	}
@@ -86,7 +94,7 @@ func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p
 }
 
 func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p payload.Payload) flux.Flux[payload.Payload] {
-	ptr, ok := m.lookup(namespace, operation)
+	ptr, ok := m.lookup(operations.RequestStream, namespace, operation)
 	if !ok {
 		return nil
 	}
@@ -96,7 +104,7 @@ func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p
 }
 
 func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	ptr, ok := m.lookup(namespace, operation)
+	ptr, ok := m.lookup(operations.RequestChannel, namespace, operation)
 	if !ok {
 		return nil
 	}
@@ -106,10 +114,10 @@ func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string,
 }
 
 // lookup returns what points to the current destination of an operation.
-func (m *Mesh) lookup(namespace, operation string) (*atomic.Pointer[destination], bool) {
+func (m *Mesh) lookup(requestType operations.RequestType, namespace, operation string) (*atomic.Pointer[destination], bool) {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
-	ptr, ok := m.exports[namespace][operation]
+	ptr, ok := m.exports[operationKey{requestType, namespace, operation}]
 	return ptr, ok
 }
 
@@ -195,15 +203,11 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 
 		switch op.Direction {
 		case operations.Export:
-			ns, ok := m.exports[op.Namespace]
-			if !ok {
-				ns = make(map[string]*atomic.Pointer[destination])
-				m.exports[op.Namespace] = ns
-			}
-			ptr, ok := ns[op.Operation]
+			key := operationKey{op.Type, op.Namespace, op.Operation}
+			ptr, ok := m.exports[key]
 			if !ok {
 				ptr = &atomic.Pointer[destination]{}
-				ns[op.Operation] = ptr
+				m.exports[key] = ptr
 			}
 
 			ptr.Store(&destination{
@@ -239,12 +243,7 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 }
 
 func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool {
-	ns, ok := m.exports[op.Namespace]
-	if !ok {
-		return false
-	}
-
-	ptr, ok := ns[op.Operation]
+	ptr, ok := m.exports[operationKey{op.Type, op.Namespace, op.Operation}]
 	if !ok {
 		return false
 	}
-- 
2.43.0


From 6b37609339ba54a088369ef7e4b6443b2b4b854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:42 +0000
Subject: [PATCH 23/39] fix: a peer can not open streams with stream IDs of
 this side

---
 handler/handler.go                | 6 ++++++
 transport/wasmrs/host/instance.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/handler/handler.go b/handler/handler.go
index 74f58ed..a26e34c 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -29,6 +29,7 @@ var (
 type Handler struct {
 	ctx          context.Context
 	streamIDs    uint64
+	firstID      uint32 // of this side: its stream IDs are all odd or all even
 	nextStreamID func() (id uint32, firstLoop bool)
 
 	// Stream IDs on the guest MUST start at 1 and
@@ -73,8 +74,10 @@ func New(ctx context.Context, mode Mode) *Handler {
 	}
 	switch mode {
 	case ClientMode:
+		h.firstID = 1
 		h.nextStreamID = (*socket.ClientStreamIDs)(&h.streamIDs).Next
 	default:
+		h.firstID = 2
 		h.nextStreamID = (*socket.ServerStreamIDs)(&h.streamIDs).Next
 	}
 	return &h
@@ -336,6 +339,9 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 // acceptStream registers a stream of the peer, so that the frames that
 // follow the request find it.
 func (i *Handler) acceptStream(streamID uint32, input bool) (*proxy.Responder, bool) {
+	if streamID&1 == i.firstID&1 {
+		return nil, false // a stream ID of this side
+	}
 	if _, exists := i.getStream(streamID); exists {
 		return nil, false
 	}
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 90e98e7..222f594 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -477,6 +477,9 @@ func (i *Instance) recvOne(data []byte) {
 // acceptStream registers a stream of the guest, so that the frames that
 // follow the request find it.
 func (i *Instance) acceptStream(streamID uint32, metadata []byte, input bool) (*proxy.Responder, bool) {
+	if streamID&1 == 0 {
+		return nil, false // a stream ID of the host
+	}
 	if _, exists := i.getStream(streamID); exists {
 		return nil, false
 	}
-- 
2.43.0


From 1177db16556b0e2e3fd88635ad43097c3b0049e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:42 +0000
Subject: [PATCH 24/39] fix: close the module when its instance can not be
 created

---
 transport/wasmrs/host/host.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transport/wasmrs/host/host.go b/transport/wasmrs/host/host.go
index 9c7632a..e80e001 100644
--- a/transport/wasmrs/host/host.go
+++ b/transport/wasmrs/host/host.go
@@ -79,7 +79,13 @@ func (m *Module) Instantiate(ctx context.Context) (*Instance, error) {
 		return nil, err
 	}
 
-	return NewInstance(ctx, module)
+	inst, err := NewInstance(ctx, module)
+	if err != nil {
+		_ = module.Close(ctx)
+		return nil, err
+	}
+
+	return inst, nil
 }
 
 func instantiateWasmrs(ctx context.Context, r wazero.Runtime) (api.Closer, error) {
-- 
2.43.0


From 761623f723e1dd3e13a83dd691343056766212db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:42 +0000
Subject: [PATCH 25/39] fix: handlers of a host instance are not limited to
 small operation indexes

---
 transport/wasmrs/host/instance.go | 36 +++++++------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 222f594..3439128 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -53,10 +53,10 @@ type Instance struct {
 	operations         operations.Table
 
 	importedMu   sync.RWMutex // guards the fields below
-	importedRR   []invoke.RequestResponseHandler
-	importedRFNF []invoke.FireAndForgetHandler
-	importedRS   []invoke.RequestStreamHandler
-	importedRC   []invoke.RequestChannelHandler
+	importedRR   map[uint32]invoke.RequestResponseHandler
+	importedRFNF map[uint32]invoke.FireAndForgetHandler
+	importedRS   map[uint32]invoke.RequestStreamHandler
+	importedRC   map[uint32]invoke.RequestChannelHandler
 }
 
 type fragmentedPayload struct {
@@ -108,6 +108,10 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		fragmentedPayloads: make(map[uint32]fragmentedPayload),
 		sendSize:           16 * 1024,
 		idle:               make(chan struct{}),
+		importedRR:         make(map[uint32]invoke.RequestResponseHandler),
+		importedRFNF:       make(map[uint32]invoke.FireAndForgetHandler),
+		importedRS:         make(map[uint32]invoke.RequestStreamHandler),
+		importedRC:         make(map[uint32]invoke.RequestChannelHandler),
 	}
 
 	ctx = context.WithValue(ctx, instanceKey{}, i)
@@ -597,72 +601,48 @@ func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder,
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
 	i.importedMu.Lock()
 	defer i.importedMu.Unlock()
-	for uint32(len(i.importedRR)) < index+1 {
-		i.importedRR = append(i.importedRR, nil)
-	}
 	i.importedRR[index] = handler
 }
 
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
 	i.importedMu.RLock()
 	defer i.importedMu.RUnlock()
-	if uint32(len(i.importedRR)) <= index {
-		return nil
-	}
 	return i.importedRR[index]
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
 	i.importedMu.Lock()
 	defer i.importedMu.Unlock()
-	for uint32(len(i.importedRFNF)) < index+1 {
-		i.importedRFNF = append(i.importedRFNF, nil)
-	}
 	i.importedRFNF[index] = handler
 }
 
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
 	i.importedMu.RLock()
 	defer i.importedMu.RUnlock()
-	if uint32(len(i.importedRFNF)) <= index {
-		return nil
-	}
 	return i.importedRFNF[index]
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
 	i.importedMu.Lock()
 	defer i.importedMu.Unlock()
-	for uint32(len(i.importedRS)) < index+1 {
-		i.importedRS = append(i.importedRS, nil)
-	}
 	i.importedRS[index] = handler
 }
 
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
 	i.importedMu.RLock()
 	defer i.importedMu.RUnlock()
-	if uint32(len(i.importedRS)) <= index {
-		return nil
-	}
 	return i.importedRS[index]
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
 	i.importedMu.Lock()
 	defer i.importedMu.Unlock()
-	for uint32(len(i.importedRC)) < index+1 {
-		i.importedRC = append(i.importedRC, nil)
-	}
 	i.importedRC[index] = handler
 }
 
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
 	i.importedMu.RLock()
 	defer i.importedMu.RUnlock()
-	if uint32(len(i.importedRC)) <= index {
-		return nil
-	}
 	return i.importedRC[index]
 }
 
-- 
2.43.0


From 1671c12c0978bfe8afb2212b886c276df489d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:28 +0000
Subject: [PATCH 26/39] fix: end the mono of a flux that completes without a
 value

---
 transform/transform.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/transform/transform.go b/transform/transform.go
index 886125c..663ba93 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -1,6 +1,7 @@
 package transform
 
 import (
+	"errors"
 	"time"
 
 	"golang.org/x/exp/constraints"
@@ -510,12 +511,19 @@ func FluxToVoid[T any](f flux.Flux[T]) mono.Void {
 	})
 }
 
+// errNoValue is the error of a mono whose flux completed without a value.
+var errNoValue = errors.New("flux completed without a value")
+
 func FluxToMono[T any](f flux.Flux[T]) mono.Mono[T] {
 	return mono.Create(func(sink mono.Sink[T]) {
 		f.Subscribe(flux.Subscribe[T]{
 			OnNext: func(val T) {
 				sink.Success(val)
 			},
+			OnComplete: func() {
+				// Has no effect after a value.
+				sink.Error(errNoValue)
+			},
 			OnError: func(err error) {
 				sink.Error(err)
 			},
-- 
2.43.0


From b87ef9f5838c624db7436dea2020f1e3cf72259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:19 +0000
Subject: [PATCH 27/39] fix: a mesh forgets the pending imports of instances it
 has closed

Imports that nobody exports were kept forever, along with the instance that
made them, so a mesh grew with every reload of such a module.
---
 transport/wasmrs/mesh/mesh.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 4a1065f..4080582 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -172,6 +172,7 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 		go func(inst *host.Instance) {
 			time.Sleep(5 * time.Second)
 			inst.Close()
+			m.forget(inst)
 		}(existing)
 	}
 
@@ -185,6 +186,19 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 	return inst, nil
 }
 
+// forget drops the imports that a closed instance still waits for.
+func (m *Mesh) forget(inst *host.Instance) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	waiting := make([]*pending, 0, len(m.unsatisfied))
+	for _, u := range m.unsatisfied {
+		if u.instance != inst {
+			waiting = append(waiting, u)
+		}
+	}
+	m.unsatisfied = waiting
+}
+
 func (m *Mesh) linkOperations(inst *host.Instance) {
 	opers := inst.Operations()
 	headerFmt := color.New(color.FgGreen, color.Underline).SprintfFunc()
-- 
2.43.0


From 58681cd38489ea47cd7753aa4a532ac37981432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:15 +0000
Subject: [PATCH 28/39] fix: late answers do not go over a later connection of
 the handler

What a handler serves was sent over whatever connection the handler had at
that time. After connecting again, answers to calls of the previous
connection ended calls of the new one that had the same stream ID.
---
 handler/handler.go | 82 +++++++++++++++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 30 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index a26e34c..6a4f9fb 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -48,10 +48,38 @@ type Handler struct {
 	importedRS   []invoke.RequestStreamHandler
 	importedRC   []invoke.RequestChannelHandler
 
+	mu      sync.RWMutex // guards the fields below
+	conn    *connection
+	opTable operations.Table
+}
+
+// connection is what frames are sent over until it is closed. What serves the
+// peer keeps to its connection, since the stream IDs that the peer has used
+// mean something else when the handler gets another one.
+type connection struct {
 	mu        sync.RWMutex // guards the fields below
 	sendFrame FrameSender
 	closed    bool
-	opTable   operations.Table
+}
+
+func (c *connection) SendFrame(f frames.Frame) error {
+	c.mu.RLock()
+	sendFrame, closed := c.sendFrame, c.closed
+	c.mu.RUnlock()
+	if sendFrame == nil || closed {
+		return errClosed
+	}
+	return sendFrame(f)
+}
+
+func (c *connection) sendError(streamID uint32, err error) {
+	proxy.SendError(c.SendFrame, streamID, err)
+}
+
+func (c *connection) close() {
+	c.mu.Lock()
+	c.closed = true
+	c.mu.Unlock()
 }
 
 // type fragmentedPayload struct {
@@ -70,7 +98,8 @@ const (
 
 func New(ctx context.Context, mode Mode) *Handler {
 	h := Handler{
-		ctx: ctx,
+		ctx:  ctx,
+		conn: &connection{},
 	}
 	switch mode {
 	case ClientMode:
@@ -86,16 +115,13 @@ func New(ctx context.Context, mode Mode) *Handler {
 func (i *Handler) SetFrameSender(sendFrame func(f frames.Frame) error) {
 	i.mu.Lock()
 	defer i.mu.Unlock()
-	i.sendFrame = sendFrame
-	i.closed = false
+	i.conn = &connection{sendFrame: sendFrame}
 }
 
 // Close ends all streams with an error. Nothing can be sent until
 // there is another frame sender.
 func (i *Handler) Close() error {
-	i.mu.Lock()
-	i.closed = true
-	i.mu.Unlock()
+	i.connection().close()
 	for _, s := range i.guestStreams.Streams() {
 		s.OnError(errClosed)
 	}
@@ -130,17 +156,13 @@ func (i *Handler) getStream(streamID uint32) (proxy.Stream, bool) {
 }
 
 func (i *Handler) SendFrame(f frames.Frame) error {
-	i.mu.RLock()
-	sendFrame, closed := i.sendFrame, i.closed
-	i.mu.RUnlock()
-	if sendFrame == nil || closed {
-		return errClosed
-	}
-	return sendFrame(f)
+	return i.connection().SendFrame(f)
 }
 
-func (i *Handler) sendError(streamID uint32, err error) {
-	proxy.SendError(i.SendFrame, streamID, err)
+func (i *Handler) connection() *connection {
+	i.mu.RLock()
+	defer i.mu.RUnlock()
+	return i.conn
 }
 
 func (i *Handler) HandleFrame(f frames.Frame) (err error) {
@@ -175,7 +197,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	// Will be processed under frames.FrameTypePayload
 			// 	return
 			// }
-			go i.handleRequestResponse(i.ctx, streamID, v.Data, v.Metadata)
+			go i.handleRequestResponse(i.ctx, i.connection(), streamID, v.Data, v.Metadata)
 
 		case frames.FrameTypeRequestFNF:
 			// if i.checkFollows(&rr) {
@@ -183,7 +205,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleFireAndForget(i.ctx, streamID, v.Data, v.Metadata)
+			go i.handleFireAndForget(i.ctx, i.connection(), streamID, v.Data, v.Metadata)
 
 		case frames.FrameTypeRequestStream:
 			// if i.checkFollows(&rs) {
@@ -284,15 +306,15 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 	return nil
 }
 
-func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Handler) handleRequestResponse(ctx context.Context, conn *connection, streamID uint32, data, metadata []byte) {
+	if !checkMetadata(conn, streamID, metadata) {
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestResponseHandler(operationID)
 	if handler == nil {
-		i.sendError(streamID, errNotFound)
+		conn.sendError(streamID, errNotFound)
 		return
 	}
 
@@ -301,7 +323,7 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			err := i.SendFrame(&frames.Payload{
+			err := conn.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
@@ -309,24 +331,24 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 				Complete: true,
 			})
 			if err != nil {
-				i.sendError(streamID, err)
+				conn.sendError(streamID, err)
 			}
 		},
 		OnError: func(err error) {
-			i.sendError(streamID, err)
+			conn.sendError(streamID, err)
 		},
 	})
 }
 
-func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []byte) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Handler) handleFireAndForget(ctx context.Context, conn *connection, streamID uint32, data, metadata []byte) {
+	if !checkMetadata(conn, streamID, metadata) {
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetFireAndForgetHandler(operationID)
 	if handler == nil {
-		i.sendError(streamID, errNotFound)
+		conn.sendError(streamID, errNotFound)
 		return
 	}
 
@@ -345,7 +367,7 @@ func (i *Handler) acceptStream(streamID uint32, input bool) (*proxy.Responder, b
 	if _, exists := i.getStream(streamID); exists {
 		return nil, false
 	}
-	s := proxy.NewResponder(i.ctx, streamID, input, i.SendFrame, i.removeStream)
+	s := proxy.NewResponder(i.ctx, streamID, input, i.connection().SendFrame, i.removeStream)
 	i.registerStream(s)
 	return s, true
 }
@@ -638,9 +660,9 @@ func (i *Handler) getRequestChannelHandler(index uint32) invoke.RequestChannelHa
 	return i.importedRC[index]
 }
 
-func (i *Handler) checkMetadata(streamID uint32, metadata []byte) bool {
+func checkMetadata(conn *connection, streamID uint32, metadata []byte) bool {
 	if len(metadata) < minMetadataLen {
-		i.sendError(streamID, errInvalidMetadata)
+		conn.sendError(streamID, errInvalidMetadata)
 		return false
 	}
 
-- 
2.43.0


From ff87d27860aa76fe21356a83252fcbfa4bb097fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:15 +0000
Subject: [PATCH 29/39] fix: calls made while connecting are not sent ahead of
 the handshake

The handler got its frame sender before the setup frame was sent, and before
that its own frames were dispatched to itself. A call made meanwhile was the
first frame of the connection, which the server then refused.
---
 transport/rsocket/init.go      | 27 +++++++++++++++++++++------
 transport/rsocket/transport.go |  4 +---
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/transport/rsocket/init.go b/transport/rsocket/init.go
index c7a5566..6e98321 100644
--- a/transport/rsocket/init.go
+++ b/transport/rsocket/init.go
@@ -26,14 +26,10 @@ func Handler(ctx context.Context) *handler.Handler {
 }
 
 func NewClient(ctx context.Context, h *handler.Handler) (*Transport, error) {
-	network := getEnvOrDefault("RSOCKET_NETWORK", "tcp")
-	addr := getEnvOrDefault("RSOCKET_ADDRESS", "127.0.0.1:7878")
-	conn, err := NewConnWithAddr(ctx, network, addr, nil)
+	t, err := dial(ctx, h)
 	if err != nil {
 		return nil, err
 	}
-
-	t := NewTCPClientTransport(conn, h)
 	h.SetFrameSender(func(f frames.Frame) error {
 		return t.Send(f, true)
 	})
@@ -41,13 +37,31 @@ func NewClient(ctx context.Context, h *handler.Handler) (*Transport, error) {
 	return t, nil
 }
 
+func dial(ctx context.Context, h *handler.Handler) (*Transport, error) {
+	network := getEnvOrDefault("RSOCKET_NETWORK", "tcp")
+	addr := getEnvOrDefault("RSOCKET_ADDRESS", "127.0.0.1:7878")
+	conn, err := NewConnWithAddr(ctx, network, addr, nil)
+	if err != nil {
+		return nil, err
+	}
+
+	return NewTCPClientTransport(conn, h), nil
+}
+
 func Connect(h *handler.Handler) error {
 	ctx := context.Background()
-	t, err := NewClient(ctx, h)
+	t, err := dial(ctx, h)
 	if err != nil {
 		return err
 	}
 
+	// Calls wait for the setup frame, which is the first of the connection.
+	ready := make(chan struct{})
+	h.SetFrameSender(func(f frames.Frame) error {
+		<-ready
+		return t.Send(f, true)
+	})
+
 	// Send operation list in setup frame.
 	list := invoke.GetOperationsTable()
 	payload := list.ToBytes()
@@ -56,6 +70,7 @@ func Connect(h *handler.Handler) error {
 		MinorVersion: 2,
 		Data:         payload,
 	}, true)
+	close(ready)
 
 	return t.Start(ctx)
 }
diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index 6946fad..554b404 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -62,7 +62,7 @@ type Transport struct {
 
 // NewTransport creates new transport.
 func NewTransport(c Conn, handler DuplexHandler, isServer bool) *Transport {
-	t := Transport{
+	return &Transport{
 		conn:        c,
 		maxLifetime: DefaultKeepaliveMaxLifetime,
 		handler:     handler,
@@ -70,8 +70,6 @@ func NewTransport(c Conn, handler DuplexHandler, isServer bool) *Transport {
 		ready:       make(chan struct{}),
 		done:        make(chan struct{}),
 	}
-	handler.SetFrameSender(t.handler.HandleFrame)
-	return &t
 }
 
 // IsNoHandlerError returns true if input error means no handler registered.
-- 
2.43.0


From 945e681999ac5c57e97a0da56bebaea6fc4ef37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:29 +0000
Subject: [PATCH 30/39] fix: a MessagePack length near 2^32 is out of range

---
 msgpack/data_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/data_reader.go b/msgpack/data_reader.go
index 4240605..eb2c84b 100644
--- a/msgpack/data_reader.go
+++ b/msgpack/data_reader.go
@@ -240,7 +240,7 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
 	}
-	if d.byteOffset+length > uint32(len(d.buffer)) {
+	if uint64(d.byteOffset)+uint64(length) > uint64(len(d.buffer)) {
 		d.err = ErrRange
 		return ErrRange
 	}
-- 
2.43.0


From d5681998ac0848161a219beaf604cab068fad792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:29 +0000
Subject: [PATCH 31/39] fix: appending to decoded bytes does not overwrite what
 follows them

---
 msgpack/data_reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msgpack/data_reader.go b/msgpack/data_reader.go
index eb2c84b..267fd6a 100644
--- a/msgpack/data_reader.go
+++ b/msgpack/data_reader.go
@@ -24,8 +24,9 @@ func (d *DataReader) GetBytes(length uint32) ([]byte, error) {
 	if err := d.checkBufferSize(length); err != nil {
 		return nil, err
 	}
-	result := d.buffer[d.byteOffset : d.byteOffset+length]
-	d.byteOffset += length
+	end := d.byteOffset + length
+	result := d.buffer[d.byteOffset:end:end]
+	d.byteOffset = end
 	return result, nil
 }
 
-- 
2.43.0


From b957cae4543dd9b7a7e0b9559fb17d7973071abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:29 +0000
Subject: [PATCH 32/39] fix: skip MessagePack extensions and deeply nested
 values

---
 msgpack/decoder.go | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 02b0b29..542cd2f 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -593,27 +593,23 @@ func (d *Decoder) ReadMapSize() (uint32, error) {
 }
 
 func (d *Decoder) Skip() error {
-	numberOfObjectsToDiscard, err := d.getSize()
-	if err != nil {
-		return err
-	}
-
-	for numberOfObjectsToDiscard > 0 {
-		err = d.Skip() // Skip recursively
+	// Not recursive, as values can be nested to any depth.
+	for remaining := uint64(1); remaining > 0; remaining-- {
+		size, err := d.getSize()
 		if err != nil {
 			return err
 		}
-		numberOfObjectsToDiscard--
+		remaining += size
 	}
 	return nil
 }
 
-func (d *Decoder) getSize() (uint32, error) {
+func (d *Decoder) getSize() (uint64, error) {
 	leadByte, err := d.reader.GetUint8()
 	if err != nil {
 		return 0, err
 	}
-	var objectsToDiscard uint32 = 0
+	var objectsToDiscard uint64 = 0
 
 	if isNegativeFixedInt(leadByte) || isFixedInt(leadByte) {
 		// Noop, will just discard the leadbyte
@@ -621,9 +617,9 @@ func (d *Decoder) getSize() (uint32, error) {
 		strLen := uint32(leadByte & 0x1f)
 		d.reader.Discard(strLen)
 	} else if isFixedArray(leadByte) {
-		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
+		objectsToDiscard = uint64(leadByte & FormatFourLeastSigBitsInByte)
 	} else if isFixedMap(leadByte) {
-		objectsToDiscard = 2 * uint32(leadByte&FormatFourLeastSigBitsInByte)
+		objectsToDiscard = 2 * uint64(leadByte&FormatFourLeastSigBitsInByte)
 	} else {
 		switch leadByte {
 		case FormatNil, FormatTrue, FormatFalse:
@@ -667,7 +663,7 @@ func (d *Decoder) getSize() (uint32, error) {
 		case FormatUint64, FormatInt64:
 			d.reader.Discard(8)
 		case FormatFixExt1:
-			d.reader.Discard(1)
+			d.reader.Discard(2)
 		case FormatFixExt2:
 			d.reader.Discard(3)
 		case FormatFixExt4:
@@ -681,31 +677,38 @@ func (d *Decoder) getSize() (uint32, error) {
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = uint32(v)
+			objectsToDiscard = uint64(v)
+		case FormatExt8, FormatExt16, FormatExt32:
+			length, err := d.parseExtLen(leadByte)
+			if err != nil {
+				return 0, err
+			}
+			d.reader.Discard(1)
+			d.reader.Discard(length)
 		case FormatArray32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = v
+			objectsToDiscard = uint64(v)
 		case FormatMap16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * uint32(v)
+			objectsToDiscard = 2 * uint64(v)
 		case FormatMap32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * v
+			objectsToDiscard = 2 * uint64(v)
 		default:
 			return 0, ReadError{"bad prefix"}
 		}
 	}
 
-	return objectsToDiscard, nil
+	return objectsToDiscard, d.reader.Err()
 }
 
 func (d *Decoder) ReadAny() (any, error) {
@@ -889,13 +892,13 @@ func (d *Decoder) parseExtLen(c byte) (uint32, error) {
 	case FormatFixExt16:
 		return 16, nil
 	case FormatExt8:
-		n, err := d.ReadUint8()
+		n, err := d.reader.GetUint8()
 		return uint32(n), err
 	case FormatExt16:
-		n, err := d.ReadUint16()
+		n, err := d.reader.GetUint16()
 		return uint32(n), err
 	case FormatExt32:
-		n, err := d.ReadUint32()
+		n, err := d.reader.GetUint32()
 		return n, err
 	default:
 		return 0, ReadError{"msgpack: invalid code=" + strconv.FormatUint(uint64(c), 16) + " decoding ext len"}
-- 
2.43.0


From 3a5d867947aa67718181536409251d2ee36b9be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:52 +0000
Subject: [PATCH 33/39] fix: decoding does not trust the sizes, keys and depth
 of MessagePack values

---
 msgpack/decoder.go | 84 +++++++++++++++++++++++++++-------------------
 msgpack/utils.go   | 14 ++++++--
 2 files changed, 61 insertions(+), 37 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 542cd2f..3f9f27a 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -9,6 +9,7 @@ import (
 
 type Decoder struct {
 	reader DataReader
+	depth  int
 }
 
 // Ensure `*Decoder` implements `Reader`.
@@ -672,12 +673,6 @@ func (d *Decoder) getSize() (uint64, error) {
 			d.reader.Discard(9)
 		case FormatFixExt16:
 			d.reader.Discard(17)
-		case FormatArray16:
-			v, err := d.reader.GetUint16()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = uint64(v)
 		case FormatExt8, FormatExt16, FormatExt32:
 			length, err := d.parseExtLen(leadByte)
 			if err != nil {
@@ -685,6 +680,12 @@ func (d *Decoder) getSize() (uint64, error) {
 			}
 			d.reader.Discard(1)
 			d.reader.Discard(length)
+		case FormatArray16:
+			v, err := d.reader.GetUint16()
+			if err != nil {
+				return 0, err
+			}
+			objectsToDiscard = uint64(v)
 		case FormatArray32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
@@ -727,17 +728,11 @@ func (d *Decoder) ReadAny() (any, error) {
 	}
 
 	if isFixedArray(prefix) {
-		aryLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		ary := make([]any, aryLen)
-		err := d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(prefix & FormatFourLeastSigBitsInByte))
 	}
 
 	if isFixedMap(prefix) {
-		mapLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		m := make(map[any]any, mapLen)
-		err := d.readMap(m, mapLen)
-		return m, err
+		return d.readMap(uint32(prefix & FormatFourLeastSigBitsInByte))
 	}
 
 	switch prefix {
@@ -781,33 +776,25 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v))
 	case FormatArray32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(v)
 	case FormatMap16:
 		v, err := d.reader.GetUint16()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, uint32(v))
-		return m, err
+		return d.readMap(uint32(v))
 	case FormatMap32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, v)
-		return m, err
+		return d.readMap(v)
 	case FormatBin8:
 		binLen, err := d.reader.GetUint8()
 		if err != nil {
@@ -828,35 +815,62 @@ func (d *Decoder) ReadAny() (any, error) {
 		return d.reader.GetBytes(binLen)
 	}
 
-	return nil, ReadError{"bad value for bool"}
+	return nil, ReadError{"bad prefix"}
 }
 
-func (d *Decoder) readArray(array []any) error {
-	for i := 0; i < len(array); i++ {
+func (d *Decoder) readArray(length uint32) ([]any, error) {
+	if err := d.nest(); err != nil {
+		return nil, err
+	}
+	defer d.unnest()
+	array := make([]any, 0, preallocate(length))
+	for i := uint32(0); i < length; i++ {
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
 		}
-		array[i] = value
+		array = append(array, value)
 	}
-	return nil
+	return array, nil
 }
 
-func (d *Decoder) readMap(m map[any]any, length uint32) error {
+func (d *Decoder) readMap(length uint32) (map[any]any, error) {
+	if err := d.nest(); err != nil {
+		return nil, err
+	}
+	defer d.unnest()
+	m := make(map[any]any, preallocate(length))
 	for i := uint32(0); i < length; i++ {
 		key, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
+		}
+		switch key.(type) {
+		case []any, map[any]any, []byte:
+			return nil, ReadError{"bad type for map key"}
 		}
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
 		}
 		m[key] = value
 	}
+	return m, nil
+}
+
+// maxDepth limits how deeply the values that ReadAny returns are nested.
+const maxDepth = 10000
+
+func (d *Decoder) nest() error {
+	if d.depth == maxDepth {
+		return ReadError{"nested too deeply"}
+	}
+	d.depth++
 	return nil
 }
 
+func (d *Decoder) unnest() { d.depth-- }
+
 func (d *Decoder) extHeader(c byte) (int8, uint32, error) {
 	extLen, err := d.parseExtLen(c)
 	if err != nil {
diff --git a/msgpack/utils.go b/msgpack/utils.go
index e553ab7..ce55362 100644
--- a/msgpack/utils.go
+++ b/msgpack/utils.go
@@ -4,6 +4,16 @@ import (
 	"golang.org/x/exp/constraints"
 )
 
+// preallocate limits what is allocated for size elements before they have
+// been read, since the size may be anything.
+func preallocate(size uint32) int {
+	const max = 64
+	if size > max {
+		return max
+	}
+	return int(size)
+}
+
 func WriteSlice[T any](encoder Writer, values []T, valF func(Writer, T)) error {
 	encoder.WriteArraySize(uint32(len(values)))
 	for _, item := range values {
@@ -18,7 +28,7 @@ func ReadSlice[T any](reader Reader, valF func(reader Reader) (T, error)) ([]T,
 	if err != nil {
 		return nil, err
 	}
-	request := make([]T, 0, listSize)
+	request := make([]T, 0, preallocate(listSize))
 	for listSize > 0 {
 		listSize--
 		item, err := valF(reader)
@@ -50,7 +60,7 @@ func ReadMap[K constraints.Ordered, V any](reader Reader,
 	if err != nil {
 		return nil, err
 	}
-	m := make(map[K]V, mapSize)
+	m := make(map[K]V, preallocate(mapSize))
 	for mapSize > 0 {
 		mapSize--
 		key, err := keyF(reader)
-- 
2.43.0


From 9305177e37444643a29fd94ae8fcc6cab111e980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:53 +0000
Subject: [PATCH 34/39] fix: 255 bytes are not sized one byte too long

---
 msgpack/sizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index ad88b50..8964498 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -118,7 +118,7 @@ func (s *Sizer) WriteArraySize(length uint32) {
 }
 
 func (s *Sizer) writeBinLength(length uint32) {
-	if length < math.MaxUint8 {
+	if length <= math.MaxUint8 {
 		s.length += 1
 	} else if length <= math.MaxUint16 {
 		s.length += 2
-- 
2.43.0


From aa1fb4a20f8f98fc72602632d52963e0cbde3887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:54 +0000
Subject: [PATCH 35/39] fix: nil and every supported type can be encoded as any

---
 msgpack/decoder.go |  7 +++++++
 msgpack/encoder.go | 36 ++++++++++++++++++++++++++++++++----
 msgpack/sizer.go   | 28 +++++++++++++++++++++++-----
 3 files changed, 62 insertions(+), 9 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 3f9f27a..f66620d 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -394,6 +394,11 @@ func (d *Decoder) ReadTime() (time.Time, error) {
 	}
 
 	d.reader.Discard(1)
+	return d.readTime(prefix)
+}
+
+// readTime reads what follows the prefix of a time.
+func (d *Decoder) readTime(prefix byte) (time.Time, error) {
 	extID, extLen, err := d.extHeader(prefix)
 	if err != nil {
 		return time.Time{}, err
@@ -813,6 +818,8 @@ func (d *Decoder) ReadAny() (any, error) {
 			return nil, err
 		}
 		return d.reader.GetBytes(binLen)
+	case FormatFixExt4, FormatFixExt8, FormatExt8:
+		return d.readTime(prefix)
 	}
 
 	return nil, ReadError{"bad prefix"}
diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 634bf9c..21f3967 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -2,10 +2,13 @@ package msgpack
 
 import (
 	"encoding/binary"
+	"errors"
 	"math"
 	"time"
 )
 
+var errUnsupported = errors.New("msgpack: unsupported type")
+
 type Encoder struct {
 	reader DataReader
 }
@@ -315,14 +318,11 @@ func (e *Encoder) WriteMapSize(length uint32) {
 }
 
 func (e *Encoder) WriteAny(value any) {
-	if value == nil {
-		e.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		e.WriteNil()
 	case Codec:
-		v.Encode(e)
+		e.check(v.Encode(e))
 	case int:
 		e.WriteInt64(int64(v))
 	case int8:
@@ -351,6 +351,8 @@ func (e *Encoder) WriteAny(value any) {
 		e.WriteFloat64(v)
 	case string:
 		e.WriteString(v)
+	case time.Time:
+		e.WriteTime(v)
 	case []byte:
 		e.WriteByteArray(v)
 	case []interface{}:
@@ -365,6 +367,12 @@ func (e *Encoder) WriteAny(value any) {
 		for _, v := range v {
 			e.WriteString(v)
 		}
+	case []time.Time:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteTime(v)
+		}
 	case []bool:
 		size := uint32(len(v))
 		e.WriteArraySize(size)
@@ -427,6 +435,18 @@ func (e *Encoder) WriteAny(value any) {
 			e.WriteUint64(v)
 		}
 
+	case []float32:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteFloat32(v)
+		}
+	case []float64:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteFloat64(v)
+		}
 	case map[string]string:
 		size := uint32(len(v))
 		e.WriteMapSize(size)
@@ -518,6 +538,8 @@ func (e *Encoder) WriteAny(value any) {
 			e.WriteAny(k)
 			e.WriteAny(v)
 		}
+	default:
+		e.check(errUnsupported)
 	}
 }
 
@@ -568,6 +590,12 @@ func (e *Encoder) write4(code byte, n uint32) error {
 	return e.reader.SetBytes(buf[:])
 }
 
+func (e *Encoder) check(err error) {
+	if e.reader.err == nil {
+		e.reader.err = err
+	}
+}
+
 func (e *Encoder) Err() error {
 	return e.reader.Err()
 }
diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index 8964498..a43807a 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -7,6 +7,7 @@ import (
 
 type Sizer struct {
 	length uint32
+	err    error
 }
 
 // Ensure `*Sizer` implements `Writer`.
@@ -279,14 +280,11 @@ func (s *Sizer) WriteNillableFloat64(value *float64) {
 }
 
 func (s *Sizer) WriteAny(value any) {
-	if value == nil {
-		s.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		s.WriteNil()
 	case Codec:
-		v.Encode(s)
+		s.check(v.Encode(s))
 	case int:
 		s.WriteInt64(int64(v))
 	case int8:
@@ -399,6 +397,18 @@ func (s *Sizer) WriteAny(value any) {
 			s.WriteUint64(v)
 		}
 
+	case []float32:
+		size := uint32(len(v))
+		s.WriteArraySize(size)
+		for _, v := range v {
+			s.WriteFloat32(v)
+		}
+	case []float64:
+		size := uint32(len(v))
+		s.WriteArraySize(size)
+		for _, v := range v {
+			s.WriteFloat64(v)
+		}
 	case map[string]string:
 		size := uint32(len(v))
 		s.WriteMapSize(size)
@@ -490,9 +500,17 @@ func (s *Sizer) WriteAny(value any) {
 			s.WriteAny(k)
 			s.WriteAny(v)
 		}
+	default:
+		s.check(errUnsupported)
+	}
+}
+
+func (s *Sizer) check(err error) {
+	if s.err == nil {
+		s.err = err
 	}
 }
 
 func (s *Sizer) Err() error {
-	return nil
+	return s.err
 }
-- 
2.43.0


From f755d84722fd083ec60556fd36b7bfca39093201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:54 +0000
Subject: [PATCH 36/39] fix: converting nil and errors does not panic

---
 msgpack/convert/convert.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/msgpack/convert/convert.go b/msgpack/convert/convert.go
index 455fc93..3956350 100644
--- a/msgpack/convert/convert.go
+++ b/msgpack/convert/convert.go
@@ -71,8 +71,11 @@ func String[T ~string](value string, err error) (T, error) {
 }
 
 func NillableString[T ~string](value *string, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 func Bool[T ~bool](value bool, err error) (T, error) {
@@ -80,8 +83,11 @@ func Bool[T ~bool](value bool, err error) (T, error) {
 }
 
 func NillableBool[T ~bool](value *bool, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 type numberic interface {
@@ -95,8 +101,11 @@ func Numeric[T, I numberic](value I, err error) (T, error) {
 }
 
 func NillableNumeric[T, I numberic](value *I, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 func ByteArray[T, I ~[]byte](value I, err error) (T, error) {
-- 
2.43.0


From f39fcaa242fac07a96e2e7581dbee45c35b17eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:54 +0000
Subject: [PATCH 37/39] fix: CodecEncode reports errors

---
 transform/transform.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index 663ba93..3c80144 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -325,11 +325,10 @@ func CodecDecode(raw payload.Payload, value msgpack.Codec) error {
 }
 
 func CodecEncode(value msgpack.Codec) (payload.Payload, error) {
-	sizer := msgpack.NewSizer()
-	value.Encode(&sizer)
-	buf := make([]byte, sizer.Len())
-	encoder := msgpack.NewEncoder(buf)
-	value.Encode(&encoder)
+	buf, err := msgpack.ToBytes(value)
+	if err != nil {
+		return nil, err
+	}
 	return payload.New(buf), nil
 }
 
-- 
2.43.0


From b0cd9012c078ecdd74e74145a1d95865c61e488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:35 +0000
Subject: [PATCH 38/39] fix: signed integers are read from unsigned forms

---
 msgpack/decoder.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index f66620d..edf20bd 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -161,6 +161,21 @@ func (d *Decoder) ReadInt64() (int64, error) {
 	case FormatInt64:
 		v, err := d.reader.GetInt64()
 		return int64(v), err
+	case FormatUint8:
+		v, err := d.reader.GetUint8()
+		return int64(v), err
+	case FormatUint16:
+		v, err := d.reader.GetUint16()
+		return int64(v), err
+	case FormatUint32:
+		v, err := d.reader.GetUint32()
+		return int64(v), err
+	case FormatUint64:
+		v, err := d.reader.GetUint64()
+		if v > math.MaxInt64 {
+			return 0, ReadError{"bad prefix for int64"}
+		}
+		return int64(v), err
 	default:
 		return 0, ReadError{"bad prefix for int64"}
 	}
-- 
2.43.0


From fec691e1e2ed3c3425e181fc0725cce0a20e7683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:57 +0000
Subject: [PATCH 39/39] fix: float64 values are read from the float32 form

---
 msgpack/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index edf20bd..62ac4db 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -378,6 +378,9 @@ func (d *Decoder) ReadFloat64() (float64, error) {
 
 	if prefix == FormatFloat64 {
 		return d.reader.GetFloat64()
+	} else if prefix == FormatFloat32 {
+		v, err := d.reader.GetFloat32()
+		return float64(v), err
 	}
 	return 0, ReadError{"bad prefix for float64"}
 }
-- 
2.43.0

