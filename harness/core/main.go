package main

import engine "verifengine"

var props []*engine.Prop

func register(p *engine.Prop) {
	withAmbience(p)
	props = append(props, p)
}

func main() { engine.Main(props) }
