// Package golang stands in for github.com/webrpc/gen-golang, which the sandbox does
// not have.
package golang

import "embed"

//go:embed *.go.tmpl
var FS embed.FS
