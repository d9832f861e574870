package main

func allHarnesses() []*Harness {
	var r []*Harness
	r = append(r, statementHarnesses()...)
	r = append(r, condHarnesses()...)
	r = append(r, opHarnesses()...)
	r = append(r, litHarnesses()...)
	r = append(r, caseHarnesses()...)
	r = append(r, funcHarnesses()...)
	r = append(r, compHarnesses()...)
	r = append(r, mapHarnesses()...)
	r = append(r, patHarnesses()...)
	r = append(r, aliasHarnesses()...)
	r = append(r, deepHarnesses()...)
	r = append(r, twinHarnesses()...)
	r = append(r, kinHarnesses()...)
	r = append(r, listHarnesses()...)
	r = append(r, plistHarnesses()...)
	r = append(r, wideHarnesses()...)
	r = append(r, wordHarnesses()...)
	r = append(r, againHarnesses()...)
	r = append(r, globalHarnesses()...)
	r = append(r, memHarnesses()...)
	r = append(r, errHarnesses()...)
	r = append(r, schedHarnesses()...)
	r = append(r, bigHarnesses()...)
	return r
}
