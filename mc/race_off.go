//go:build !race

package main

const raceBuild = false

func raceHide() {}
func raceShow() {}
