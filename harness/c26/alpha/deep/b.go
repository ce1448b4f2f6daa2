// Package deep holds call sites for the C26 check.
package deep

import "github.com/go-stack/stack"

// B0 returns its own call site.
func B0() stack.Call {
	return stack.Caller(0)
}

// B1 returns its own call site.
func B1() stack.Call {
	return stack.Caller(0)
}

// B2 returns its own call site.
func B2() stack.Call {
	return stack.Caller(0)
}
