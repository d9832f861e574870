package main

// C01, C08, C09, C10: texts and numbers that are easily taken for one another, one after the other in one process.

import (
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"math"
	"strings"
	"sync"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// word gives a different word for every number.
func word(n int) string {
	s := ""
	for {
		s = string(rune('a'+n%26)) + s
		n /= 26
		if n == 0 {
			return s + "_"
		}
	}
}

var hashes = []func(string) uint32{
	func(s string) uint32 { h := fnv.New32a(); h.Write([]byte(s)); return h.Sum32() },
	func(s string) uint32 { h := fnv.New32(); h.Write([]byte(s)); return h.Sum32() },
	func(s string) uint32 { return crc32.ChecksumIEEE([]byte(s)) },
	func(s string) uint32 { return crc32.Checksum([]byte(s), crc32.MakeTable(crc32.Castagnoli)) },
	func(s string) uint32 { return adler32.Checksum([]byte(s)) },
	func(s string) uint32 { return times(s, 31, 0) },
	func(s string) uint32 { return times(s, 33, 5381) },
	func(s string) uint32 { return times(s, 131, 0) },
	func(s string) uint32 { h := fnv.New64a(); h.Write([]byte(s)); return uint32(h.Sum64()) },
	func(s string) uint32 { return times(s, 1, 0) },
}

func times(s string, k, h uint32) uint32 {
	for i := 0; i < len(s); i++ {
		h = h*k + uint32(s[i])
	}
	return h
}

var collided sync.Map

// collide finds a text with and one without the special character that a hash takes for one.
func collide(k int, special string) (string, string) {
	type key struct {
		k int
		s string
	}
	if v, ok := collided.Load(key{k, special}); ok {
		return v.([2]string)[0], v.([2]string)[1]
	}
	tail := func(i int) string {
		b := make([]byte, 6+i%7)
		x := uint64(i)*0x9E3779B97F4A7C15 + 12345
		for j := range b {
			b[j] = byte('a' + x%26)
			x /= 26
			if j == 3 {
				x ^= uint64(i)
			}
		}
		return string(b)
	}
	seen := map[uint32]string{}
	for i := 0; i < 1<<18; i++ {
		s := "q" + tail(i)
		seen[hashes[k](s)] = s
	}
	for i := 0; i < 1<<22; i++ {
		s := "q" + special + tail(i+1<<20)
		if p, ok := seen[hashes[k](s)]; ok {
			collided.Store(key{k, special}, [2]string{p, s})
			return p, s
		}
	}
	panic("no collision")
}

// kin gives two texts that are easily taken for one another; the second one needs something the first one does not.
func (c *C) kin(special string, mark int) (string, string) {
	k := c.Choose("relation", 9)
	if k == 8 {
		return collide(c.Choose("hash", len(hashes)), special)
	}
	l := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 36, 38, 39, 40, 41, 47, 48, 49, 50, 51, 59, 60, 63, 64, 65, 79, 80, 95, 96, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 499, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 4095, 4096, 4097}
	if !thorough() {
		l = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 15, 16, 20, 24, 30, 31, 32, 33, 40, 48, 50, 63, 64, 65, 100, 127, 128, 200, 255, 256, 512, 1024, 4096}
	}
	n := l[c.Choose("length", len(l))]
	m := word(mark*9 + k)
	x := m + strings.Repeat("x", n)
	x = "p" + x[:n]
	y := strings.Repeat("y", n) + m
	y = y[len(y)-n:] + "p"
	switch k {
	case 0: // the same beginning
		return x + "zz", x + special + "z"
	case 1: // the same beginning, one is longer
		return x, x + special
	case 2: // the same end
		return "zz" + y, "z" + special + y
	case 3: // one is longer
		return "z" + y, "z" + special + "z" + y
	case 4: // the same beginning and end
		return x + "z" + y, x + special + y
	case 5: // the same letters
		return x + "z1" + y, special + x + "z1" + y
	case 6: // lower and upper case
		return x + "z" + special, strings.ToUpper(x) + "Z" + special
	}
	// quoted already
	return x + special + y, x + special + special + y
}

func kinHarnesses() []*Harness {
	names := func(c *C) {
		k := c.Choose("position", len(namePlaces)+1)
		u, v := c.kin([]string{" ", "`", "\u00e9"}[c.Choose("special", 3)], k)
		if c.Bool("swapped") {
			u, v = v, u
		}
		c.named(k, u, v)
		c.named(k, v, "t")
		c.named(k, u, "t")
		c.named(k, v, u)
	}
	strs := func(c *C) {
		k := c.Choose("position", nRawPlaces+nPlaces)
		u, v := c.kin([]string{"'", "\\", "\u00e9"}[c.Choose("special", 3)], k)
		if c.Bool("swapped") {
			u, v = v, u
		}
		for _, s := range []string{u, v, u} {
			if k < nRawPlaces {
				c.rawString(k, s)
			} else {
				c.inPlace(k-nRawPlaces, xStr(s))
			}
		}
		a, b := xStr(u), xStr(v)
		c.checkX(mkX(cy.ListOf(a.v, b.v, a.v), func(w *W) { w.sym("["); w.xs([]X{a, b, a}); w.sym("]") }))
	}
	nums := func(c *C) {
		how := c.Choose("relation", 3)
		b := []int{0, 1, 2, 3, 7, 9, 10, 42, 99, 100, 127, 128, 255, 1000, 65535, 1 << 20}[c.Choose("number", 16)]
		p := c.Choose("power", 62)
		var x, y X
		switch how {
		case 0:
			x, y = xInt(b), xInt(b+1<<uint(p+1))
		case 1:
			x, y = xInt(b), xInt(-b-1<<uint(p))
		default:
			x, y = xFloat(float64(b)+0.5), xFloat(math.Nextafter(float64(b)+0.5, 1e9)+math.Ldexp(float64(b+1), -p))
		}
		if c.Bool("swapped") {
			x, y = y, x
		}
		c.checkX(x)
		c.checkX(y)
		c.checkX(x)
		c.checkX(mkX(cy.ListOf(x.v, y.v, x.v), func(w *W) { w.sym("["); w.xs([]X{x, y, x}); w.sym("]") }))
	}
	const rel = "that begin alike, end alike, contain one another, differ in case, in a doubled character or in one character, of 35 (thorough: 77) lengths up to 4097, or have the same hash (10 common ones)"
	return []*Harness{
		{Prop: "C09", Name: "kindred-names", ShardDepth: 2,
			Rule: "all pairs of a plain and another name " + rel + ", one after the other in both orders and together in all 43 positions that take a name",
			Body: names},
		{Prop: "C08", Name: "kindred-strings", ShardDepth: 2,
			Rule: "all pairs of a plain and another string " + rel + ", one after the other in both orders and together, in all 36 places of an expression and 14 other ways to hand over a string",
			Body: strs},
		{Prop: "C10", Name: "kindred-numbers", ShardDepth: 2,
			Rule: "all pairs of numbers that differ in a single bit, in sign and one bit, and of floats that differ in a small amount, one after the other in both orders and together",
			Body: nums},
		{Prop: "C01", Name: "kindred-before", ShardDepth: 2,
			Rule: "names in 43 positions, strings in 50 and numbers, one statement after another with one that is easily taken for it: all pairs of texts " + rel + ", all pairs of numbers that differ in one bit, both orders",
			Body: func(c *C) { []func(*C){names, strs, nums}[c.Choose("what", 3)](c) }},
	}
}
