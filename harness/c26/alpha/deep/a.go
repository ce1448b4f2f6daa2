// Package deep holds call sites for the C26 check.
package deep

import "github.com/go-stack/stack"

// A0 returns its own call site.
func A0() stack.Call {
	return stack.Caller(0)
}

// A1 returns its own call site.
func A1() stack.Call {
	return stack.Caller(0)
}

// A2 returns its own call site.
func A2() stack.Call {
	return stack.Caller(0)
}
