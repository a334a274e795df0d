package main

import (
	"github.com/danhhz/zeropb/generate"

	"zpverif/gen"
	"zpverif/protogen"
)

func randRequest(r *gen.Rng, n int) *generate.CodeGeneratorRequest {
	req, _ := protogen.Request(r, n)
	return req
}
