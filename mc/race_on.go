//go:build race

package main

import "runtime"

const raceBuild = true

// What the scheduler does must not order the tasks in the eyes of the race detector.
func raceHide() { runtime.RaceDisable() }
func raceShow() { runtime.RaceEnable() }
