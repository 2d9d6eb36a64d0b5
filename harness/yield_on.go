//go:build verifyield

package main

import (
	"github.com/timtadh/data-structures/pool"
	trand "github.com/timtadh/data-structures/rand"
)

func yieldPlan(seed int64) {
	pool.VerifPlan(seed)
	trand.VerifPlan(seed)
}
