package main

import (
	"os"

	engine "verifengine"
)

var props []*engine.Prop

func register(p *engine.Prop) { props = append(props, p) }

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-child" {
		childMain()
		return
	}
	engine.Main(props)
}
