module verif/harness

go 1.16

require (
	github.com/pelletier/go-toml v1.9.3
	golang.org/x/crypto v0.0.0-20210421170649-83a5a9bb288b
	terorie.dev/nimiq v0.0.0
)

replace terorie.dev/nimiq => /repo
