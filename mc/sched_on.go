//go:build sched

package main

import (
	cy "github.com/manhcuongbk56/cypher-go-dsl"
	lib "github.com/manhcuongbk56/cypher-go-dsl/mcsync"
)

const schedBuild = true

func installHooks() {
	cy.MCPoint = point
	lib.Blocked = blocked
}
