// Package io has the name of a package all generated encoders import.
package io

type Code [4]byte
type Writer struct{ N uint16 }
