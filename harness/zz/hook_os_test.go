package zzverif

import (
	"os"
	"sync/atomic"
)

// This file is only part of the 'os' variant of the harness, in which the os
// package reports operations that change the file system (see osoverlay.py).

var curHook atomic.Value // of fsHookFn

func init() {
	curHook.Store(fsHookFn(nil))
	os.VerifHook = func(op, name, name2 string, b []byte, off int64) error {
		if h := curHook.Load().(fsHookFn); h != nil {
			return h(op, name, name2, b, off)
		}
		return nil
	}
	setFSHook = func(h fsHookFn) { curHook.Store(h) }
}
