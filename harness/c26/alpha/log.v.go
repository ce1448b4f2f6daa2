// Package alpha holds call sites for the C26 check.
package alpha

import "github.com/go-stack/stack"

// LV0 returns its own call site.
func LV0() stack.Call {
	return stack.Caller(0)
}

// LV1 returns its own call site.
func LV1() stack.Call {
	return stack.Caller(0)
}

// LV2 returns its own call site.
func LV2() stack.Call {
	return stack.Caller(0)
}
