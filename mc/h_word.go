package main

// Strings and names that read like something else: keywords, values, expressions, addresses, templates, ...

import "strings"

var keywords = strings.Fields(`ALL AND ANY AS ASC ASCENDING ASSERT ATOMIC BY CALL CASE CONSTRAINT CONTAINS COUNT CREATE CSV DELETE DESC DESCENDING DETACH DISTINCT DO
DROP ELSE END ENDS EXISTS EXPLAIN EXTRACT FALSE FIELDTERMINATOR FILTER FOREACH FROM GRAPH IN INDEX IS JOIN KEY LIMIT LOAD MANDATORY MATCH MERGE NODE NONE NOT NULL OF
ON OPTIONAL OR ORDER PROFILE REDUCE REL REMOVE RETURN SCALAR SCAN SET SHORTESTPATH SINGLE SKIP START STARTS THEN TRUE TYPE UNION UNIQUE UNWIND USING WHEN WHERE WITH XOR YIELD
NaN Infinity Inf nil None undefined void this self id elementId labels nodes size date datetime timestamp point toUpper exists collect unresolved1 unresolved2 nodeKey
ADD CSV REQUIRE YES NO OFF default function`)

var phrases = []string{
	// values
	"0", "1", "-1", "007", "1.0", "1.5", "-0.0", ".5", "5.", "1e5", "1E-5", "0x1F", "0o17", "1_000", "9223372036854775807", "9223372036854775808", "3.14f", "10%", "1,5", "1 000", "+1", "--1", "∞", "½",
	"[]", "[1, 2]", "{}", "{a: 1}", "{}{}", "()", "(n)", "(n:A)-[:T]->(m)", "-->", "<--", "[*1..3]", "1..3", "*", "**", "n.*", "#", "@", "!", "?", "&", "&&", "||", "^", "~", "=~", "<>", "!=", "==", "<=", "+=", "->", "=>", ":=", "::", ":A:B", "|", "_", "__", "___", "-", "--", "---", "+", "/", "//", "/*", "*/", "/**/", "//x", ";", ";;", ",", "a,b", "a;b", ".", "..", "...", "….",
	// expressions and names
	"n.p", "a.b.c", "n:L", "$p", "$1", "$$", "${p}", "{p}", "{{p}}", "{0}", "%s", "%d", "%v", "%%", "%[1]s", "%!s(MISSING)", "<nil>", "<p>", ":p", ":1", "@p", "#{p}", "#p", "?1", "date()", "count(*)", "toUpper('a')", "a AS b", "a as b", "NOT a", "a = b", "a OR b", "a IN [1]", "ORDER BY a", "ON CREATE", "ON MATCH", "IS NULL", "UNION ALL", "STARTS WITH", "RETURN 1", "MATCH (n) RETURN n", "WHERE 1 = 1", "DETACH DELETE", "1 OR 1 = 1", "a' OR 'a' = 'a", "'; DROP", "\\' OR 1 //",
	// already quoted
	"'a'", "\"a\"", "`a`", "''", "\"\"", "``", "'", "'a", "a'", "\"a", "a\"", "`a", "a`", "'a\"", "\"a'", "'''", "\\'a\\'", "\\\"a\\\"", "\\", "\\\\", "\\\\\\", "a\\", "\\a", "\\n", "\\t", "\\r", "\\b", "\\f", "\\0", "\\x41", "\\u0027", "\\u005C", "\\U0001F600", "\\u", "\\u00", "\\N", "&quot;", "&#39;", "%27", "%5C", "=27", "''a''", "O'Neil", "it''s", "C:\\dir\\new", "\\\\host\\share", "a\\'b", "a\\\\'b",
	// data
	"2020-01-31", "2020-01-31T10:20:30Z", "10:20:30.123+01:00", "P1Y2M3DT4H5M6S", "PT-1S", "550e8400-e29b-41d4-a716-446655440000", "user@example.com", "http://example.com/a?b=c&d=%20#e", "bolt://host:7687", "file:///etc/passwd", "../../etc/passwd", "/a/b", "a/b", "127.0.0.1", "::1", "+49 (0) 30", "$1,000.00", "100 €", "<a href=\"x\">y</a>", "<!-- -->", "<![CDATA[x]]>", "{\"a\": [1, \"b\"]}", "[\"a\"]", "a=1&b=2", "a: 1\nb: 2\n", "a\tb", "a\r\nb", "^a.*[b-z]+\\d{2}$", ".*", "(?i)a", "SGVsbG8=", "deadbeef", "camelCase", "snake_case", "kebab-case", "SCREAMING_CASE", "PascalCase", "dot.ted", "with space", " leading", "trailing ", "  ", "\u00a0", "\u200b", "\ufeff", "\ufeffa", "a\u0000b", "\u202eabc", "مرحبا", "שלום", "日本語", "Straße", "İstanbul", "ı", "e\u0301", "👩‍👩‍👧", "🇩🇪", "a\u0300\u0301", "ﬁ", "Ａ", "‘a’", "“a”", "«a»", "´a´", "a’b", "ʼ", "＇", "＼", "‵",
}

// words is all of these, keywords in four spellings.
var words = func() []string {
	var r []string
	seen := map[string]bool{}
	add := func(s string) {
		if s != "" && !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	for _, k := range keywords {
		add(k)
		add(strings.ToLower(k))
		add(strings.ToUpper(k))
		add(strings.ToUpper(k[:1]) + strings.ToLower(k[1:]))
	}
	for _, p := range phrases {
		add(p)
	}
	return r
}()

func wordHarnesses() []*Harness {
	return []*Harness{
		{Prop: "C08", Name: "strings-like-other-things", ShardDepth: 1,
			Rule: "some 600 strings that read like keywords, values, expressions, quoted strings, escapes, templates or data, as they are, doubled and between quotes, in all 36 places of an expression and 14 other ways to hand over a string",
			Body: func(c *C) {
				k := c.Choose("place", nPlaces+nRawPlaces)
				s := words[c.Choose("word", len(words))]
				switch c.Choose("more", 4) {
				case 1:
					s += s
				case 2:
					s = "'" + s + "'"
				case 3:
					s = " " + s + " "
				}
				if k >= nPlaces {
					c.rawString(k-nPlaces, s)
					return
				}
				c.inPlace(k, xStr(s))
			}},
		{Prop: "C09", Name: "names-like-other-things", ShardDepth: 1,
			Rule: "some 600 names that read like keywords, values, expressions, quoted names, escapes, templates or data, alone, with the same name or the same in other case next to it, in all 43 positions that take a name",
			Body: func(c *C) {
				k := c.Choose("position", len(namePlaces)+1)
				s := words[c.Choose("word", len(words))]
				t := []string{"t", s, strings.ToLower(s), strings.ToUpper(s)}[c.Choose("other", 4)]
				c.named(k, s, t)
			}},
	}
}
