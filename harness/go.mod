module verif

go 1.24

require (
	github.com/buildkite/yaml v2.1.0+incompatible
	github.com/drone/drone-runtime v1.0.7-0.20190729202838-87c84080f4a1
	github.com/drone/drone-yaml v0.0.0
)

require (
	github.com/bmatcuk/doublestar v1.1.1 // indirect
	github.com/docker/go-units v0.3.3 // indirect
)

replace github.com/drone/drone-yaml => /repo

exclude docker.io/go-docker v1.0.0
