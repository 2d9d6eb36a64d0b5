//go:build !verifyield

package main

// yieldPlan chooses where the next run is delayed; without instrumentation
// there is nothing to choose.
func yieldPlan(seed int64) {}
