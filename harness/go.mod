module flychain/rlp/zzverif

go 1.25

require (
	flychain v0.0.0
	github.com/go-stack/stack v1.8.1
	golang.org/x/crypto v0.5.0
	golang.org/x/tools v0.5.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/docker/docker v23.0.0+incompatible // indirect
	golang.org/x/mod v0.7.0 // indirect
	golang.org/x/sys v0.4.0 // indirect
)

replace flychain => /repo
