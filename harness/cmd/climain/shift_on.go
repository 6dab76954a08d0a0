//go:build vclock

package main

import "time"

func shift(d time.Duration) { time.VerifShift(d, d) }
