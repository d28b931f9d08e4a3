module verifgen

go 1.25.11

require (
	github.com/golang-cz/textcase v1.2.1
	github.com/posener/gitfs v1.2.2
	github.com/webrpc/webrpc v0.0.0
	verifengine v0.0.0
)

require (
	dario.cat/mergo v1.0.2 // indirect
	github.com/Masterminds/goutils v1.1.1 // indirect
	github.com/Masterminds/semver/v3 v3.5.0 // indirect
	github.com/Masterminds/sprig/v3 v3.3.0 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/google/uuid v1.6.0 // indirect
	github.com/huandu/xstrings v1.5.0 // indirect
	github.com/mitchellh/copystructure v1.2.0 // indirect
	github.com/mitchellh/reflectwalk v1.0.2 // indirect
	github.com/shopspring/decimal v1.4.0 // indirect
	github.com/shurcooL/httpfs v0.0.0-20230704072500-f1e31cf0ba5c // indirect
	github.com/spf13/cast v1.10.0 // indirect
	github.com/webrpc/gen-dart v0.2.0 // indirect
	github.com/webrpc/gen-golang v0.36.0 // indirect
	github.com/webrpc/gen-javascript v0.16.0 // indirect
	github.com/webrpc/gen-kotlin v0.3.2 // indirect
	github.com/webrpc/gen-openapi v0.18.0 // indirect
	github.com/webrpc/gen-typescript v0.30.0 // indirect
	golang.org/x/crypto v0.53.0 // indirect
	golang.org/x/mod v0.37.0 // indirect
	golang.org/x/sync v0.21.0 // indirect
	golang.org/x/tools v0.46.0 // indirect
)

replace github.com/webrpc/webrpc => /repo

replace verifengine => ../engine

replace github.com/posener/gitfs => ../../stubs/gitfs

replace github.com/webrpc/gen-golang => ../../stubs/gen-golang

replace github.com/webrpc/gen-typescript => ../../stubs/gen-typescript
