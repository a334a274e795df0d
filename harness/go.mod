module zpverif

go 1.21

require (
	github.com/danhhz/zeropb v0.0.0
	github.com/gogo/protobuf v1.2.1
	github.com/golang/protobuf v1.3.1
)

require github.com/pkg/errors v0.8.1 // indirect

replace github.com/danhhz/zeropb => /repo
