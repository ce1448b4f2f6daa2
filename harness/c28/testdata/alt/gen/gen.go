// Package gen has the name of the package the code is generated for.
package gen

type Mark uint32
type Tag string
type Blob []byte
type Box struct {
	A Mark
	B Tag
}
