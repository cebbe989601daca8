//go:build !race

package main

// Hooks that the code under test calls at comparisons when it is built with
// -gcflags=-d=libfuzzer. Operands that come closer to each other than before
// count as something new, so that guided search can approach a threshold or a
// word in steps.

import (
	"math/bits"
	_ "unsafe" // for go:linkname
)

//go:linkname libfuzzerTraceCmp1 runtime.libfuzzerTraceCmp1
//go:linkname libfuzzerTraceCmp2 runtime.libfuzzerTraceCmp2
//go:linkname libfuzzerTraceCmp4 runtime.libfuzzerTraceCmp4
//go:linkname libfuzzerTraceCmp8 runtime.libfuzzerTraceCmp8

//go:linkname libfuzzerTraceConstCmp1 runtime.libfuzzerTraceConstCmp1
//go:linkname libfuzzerTraceConstCmp2 runtime.libfuzzerTraceConstCmp2
//go:linkname libfuzzerTraceConstCmp4 runtime.libfuzzerTraceConstCmp4
//go:linkname libfuzzerTraceConstCmp8 runtime.libfuzzerTraceConstCmp8

//go:linkname libfuzzerHookStrCmp runtime.libfuzzerHookStrCmp
//go:linkname libfuzzerHookEqualFold runtime.libfuzzerHookEqualFold

// tracing is how near the operands of every comparison have been.
var tracing struct {
	on    bool
	fresh bool
	seen  [1 << 16]bool
}

//go:nosplit
func trace(pc uint, d uint) {
	if t := &tracing; t.on {
		if s := &t.seen[uint16(pc*0x9E3779B1>>8)^uint16(d*0x3D)]; !*s {
			*s, t.fresh = true, true
		}
	}
}

//go:nosplit
func traceInts(a, b uint64, pc uint) {
	if d := int64(a - b); d < 0 {
		trace(pc, 128-uint(bits.LeadingZeros64(uint64(-d))))
	} else {
		trace(pc, 64-uint(bits.LeadingZeros64(uint64(d))))
	}
}

//go:nosplit
func libfuzzerTraceCmp1(a, b uint8, pc uint) { traceInts(uint64(int8(a)), uint64(int8(b)), pc) }

//go:nosplit
func libfuzzerTraceCmp2(a, b uint16, pc uint) { traceInts(uint64(int16(a)), uint64(int16(b)), pc) }

//go:nosplit
func libfuzzerTraceCmp4(a, b uint32, pc uint) { traceInts(uint64(int32(a)), uint64(int32(b)), pc) }

//go:nosplit
func libfuzzerTraceCmp8(a, b uint64, pc uint) { traceInts(a, b, pc) }

//go:nosplit
func libfuzzerTraceConstCmp1(a, b uint8, pc uint) { traceInts(uint64(int8(a)), uint64(int8(b)), pc) }

//go:nosplit
func libfuzzerTraceConstCmp2(a, b uint16, pc uint) { traceInts(uint64(int16(a)), uint64(int16(b)), pc) }

//go:nosplit
func libfuzzerTraceConstCmp4(a, b uint32, pc uint) { traceInts(uint64(int32(a)), uint64(int32(b)), pc) }

//go:nosplit
func libfuzzerTraceConstCmp8(a, b uint64, pc uint) { traceInts(a, b, pc) }

//go:nosplit
func libfuzzerHookStrCmp(a, b string, pc uint) {
	i := 0
	for i < len(a) && i < len(b) && i < 40 && a[i] == b[i] {
		i++
	}
	d := uint(i)
	if len(a) == len(b) {
		d += 64
	}
	trace(pc, d)
}

//go:nosplit
func libfuzzerHookEqualFold(a, b string, pc uint) { libfuzzerHookStrCmp(a, b, pc) }
