//go:build go1.21

package simrt

// ScaleDiv shortens the loops of a batch program: literal lengths of 1000 and
// more are divided by it, those of 10000 and more by ScaleDiv2.
var ScaleDiv, ScaleDiv2 = 1, 1

func Scaled(n int) int {
	if W == nil || ScaleDiv <= 1 {
		return n
	}
	if n >= 10000 {
		n /= ScaleDiv2
	} else {
		n /= ScaleDiv
	}
	if n < 1 {
		n = 1
	}
	return n
}
