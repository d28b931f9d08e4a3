module verifcore

go 1.25.11

require (
	github.com/google/go-cmp v0.7.0
	github.com/webrpc/webrpc v0.0.0
	verifengine v0.0.0
)

replace github.com/webrpc/webrpc => /repo

replace verifengine => ../engine
