module frozenverif

go 1.21

require (
	github.com/arr-ai/frozen v0.0.0
	github.com/arr-ai/hash v1.1.0
)

require golang.org/x/sys v0.13.0 // indirect

replace github.com/arr-ai/frozen => /repo
