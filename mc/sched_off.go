//go:build !sched

package main

const schedBuild = false

func installHooks() { panic("not built for scheduling") }

var genStart map[string]func(g *G) interface{}
var genStep map[string]func(g *G, x interface{}) interface{}
