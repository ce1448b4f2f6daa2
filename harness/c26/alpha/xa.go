// Package alpha holds call sites for the C26 check.
package alpha

import "github.com/go-stack/stack"

// XA0 returns its own call site.
func XA0() stack.Call {
	return stack.Caller(0)
}

// XA1 returns its own call site.
func XA1() stack.Call {
	return stack.Caller(0)
}

// XA2 returns its own call site.
func XA2() stack.Call {
	return stack.Caller(0)
}
