//go:build asan

package main

// #include <stddef.h>
// size_t __sanitizer_get_current_allocated_bytes(void);
import "C"

const withASan = true

// allocated is the memory of C that is in use.
func allocated() int64 { return int64(C.__sanitizer_get_current_allocated_bytes()) }
