//go:build !asan

package main

const withASan = false

func allocated() int64 { return 0 }
