//go:build go1.21

package rt

// ProfBlock and ProfMutex are the rates at which the process is being profiled.
var ProfBlock, ProfMutex int

func SetBlockProfileRate(rate int) { ProfBlock = rate }

func SetMutexProfileFraction(rate int) int {
	old := ProfMutex
	if rate >= 0 {
		ProfMutex = rate
	}
	return old
}
