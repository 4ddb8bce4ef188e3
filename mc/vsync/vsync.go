// Package vsync replaces package sync in the instrumented program.
package vsync

import "github.com/asap2Go/calibrationReader/zzverif/vsched"

type (
	Mutex     = vsched.Mutex
	RWMutex   = vsched.RWMutex
	WaitGroup = vsched.WaitGroup
	Once      = vsched.Once
	Cond      = vsched.Cond
	Map       = vsched.Map
	Pool      = vsched.Pool
	Locker    = vsched.Locker
)

func NewCond(l Locker) *Cond                             { return vsched.NewCond(l) }
func OnceFunc(f func()) func()                           { return vsched.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return vsched.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return vsched.OnceValues(f) }
