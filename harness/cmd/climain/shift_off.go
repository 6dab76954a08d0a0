//go:build !vclock

package main

import "time"

func shift(time.Duration) {}
