// Code generated from context; the rest of the package is hand-written.

package scontext

import orig "context"

var Background = orig.Background

type CancelCauseFunc = orig.CancelCauseFunc
type CancelFunc = orig.CancelFunc

var Canceled = orig.Canceled
var Cause = orig.Cause

type Context = orig.Context

var DeadlineExceeded = orig.DeadlineExceeded
var TODO = orig.TODO
var WithCancel = orig.WithCancel
var WithCancelCause = orig.WithCancelCause
var WithValue = orig.WithValue
var WithoutCancel = orig.WithoutCancel
