module github.com/webrpc/gen-typescript

go 1.16
