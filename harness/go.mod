module verif

go 1.26

require (
	github.com/google/flatbuffers v23.5.26+incompatible
	github.com/sira-serverless-ir-arch/goirlib v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/google/uuid v1.3.0 // indirect

replace github.com/sira-serverless-ir-arch/goirlib => /repo
