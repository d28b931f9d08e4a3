module verifconc

go 1.25.11

require (
	github.com/webrpc/webrpc v0.0.0
	verifengine v0.0.0
	verifsched v0.0.0
)

replace github.com/webrpc/webrpc => /repo

replace verifengine => ../engine

replace verifsched => ../sched
