// Code generated by genre; DO NOT EDIT.

package context

import real "context"

var AfterFunc = real.AfterFunc
var Background = real.Background

type CancelCauseFunc = real.CancelCauseFunc
type CancelFunc = real.CancelFunc

var Canceled = real.Canceled
var Cause = real.Cause

type Context = real.Context

var DeadlineExceeded = real.DeadlineExceeded
var TODO = real.TODO
var WithCancelCause = real.WithCancelCause
var WithDeadlineCause = real.WithDeadlineCause
var WithTimeoutCause = real.WithTimeoutCause
var WithValue = real.WithValue
var WithoutCancel = real.WithoutCancel
