// Package alpha holds call sites for the C26 check.
package alpha

import "github.com/go-stack/stack"

// LX0 returns its own call site.
func LX0() stack.Call {
	return stack.Caller(0)
}

// LX1 returns its own call site.
func LX1() stack.Call {
	return stack.Caller(0)
}

// LX2 returns its own call site.
func LX2() stack.Call {
	return stack.Caller(0)
}
