// Package typescript stands in for github.com/webrpc/gen-typescript, which the sandbox does
// not have.
package typescript

import "embed"

//go:embed *.go.tmpl
var FS embed.FS
