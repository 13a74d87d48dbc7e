package scontext

import (
	"context"
	"time"
	"vsim"
)

type deadlineCtx struct {
	context.Context
	at  time.Time
	hit *bool
}

func (d deadlineCtx) Deadline() (time.Time, bool) { return d.at, true }
func (d deadlineCtx) Err() error {
	e := d.Context.Err()
	if e != nil && *d.hit {
		return context.DeadlineExceeded
	}
	return e
}

func WithDeadlineCause(parent context.Context, at time.Time, cause error) (context.Context, context.CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(at) {
		return context.WithCancel(parent)
	}
	inner, cancel := context.WithCancelCause(parent)
	d := deadlineCtx{inner, at, new(bool)}
	stop := vsim.AfterNs(at.UnixNano()-vsim.WallNs(), func() {
		if inner.Err() == nil {
			*d.hit = true
			if cause == nil {
				cause = context.DeadlineExceeded
			}
			cancel(cause)
		}
	})
	return d, func() { stop(); cancel(context.Canceled) }
}
func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, at, nil)
}
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, time.Unix(0, vsim.WallNs()+int64(d)), nil)
}
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, time.Unix(0, vsim.WallNs()+int64(d)), cause)
}

// AfterFunc runs f in a simulated goroutine once ctx is done.
func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	st := 0
	var off chan struct{}
	switch {
	case ctx.Err() != nil:
		st = 1
		vsim.Go(0, f)
	case ctx.Done() != nil:
		off = vsim.Make[chan struct{}]()
		vsim.Go(0, func() {
			vsim.Select(false, vsim.CaseRecv(ctx.Done()), vsim.CaseRecv(off))
			if st == 0 {
				st = 1
				f()
			}
		})
	}
	return func() bool {
		vsim.Y0()
		if st != 0 {
			return false
		}
		st = 2
		if off != nil {
			vsim.Close(off)
		}
		return true
	}
}
