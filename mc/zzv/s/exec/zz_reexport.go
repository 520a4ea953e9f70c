// Code generated by genre; DO NOT EDIT.

package exec

import real "os/exec"

var ErrDot = real.ErrDot
var ErrWaitDelay = real.ErrWaitDelay
