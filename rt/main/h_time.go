//go:build go1.21

package main

import (
	"math"
	"time"
)

func timeParse(s string) (int64, error) {
	if s == "null" {
		return math.MinInt64, nil
	}
	t, e := time.Parse(time.RFC3339Nano, s)
	if e != nil {
		return 0, e
	}
	if t.IsZero() {
		return math.MinInt64, nil
	}
	return t.Unix(), nil
}
