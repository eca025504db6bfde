package redisx

import "runtime"

func lockThread() { runtime.LockOSThread() }
