package main

// An independent reader of Cypher's lexical grammar: names (plain or in backticks), string literals
// with Cypher's escapes, numbers, symbols. It shares nothing with the code under test.

import (
	"fmt"
	"math/big"
	"strings"
	"unicode"
	"unicode/utf8"
)

type Kind int

const (
	Word   Kind = iota // unquoted identifier or keyword
	Quoted             // name in backticks
	Str
	Num
	Sym
	KW  // only in expectations: a keyword
	NM  // only in expectations: a name, plain or in backticks
	Flt // only in expectations: a number that is read as exactly this float64
)

type Tok struct {
	K Kind
	S string
	N *big.Rat
}

func (t Tok) String() string {
	switch t.K {
	case Quoted:
		return "`" + strings.ReplaceAll(t.S, "`", "``") + "`"
	case Str:
		return fmt.Sprintf("'%q'", t.S)
	case Num, Flt:
		return t.N.RatString()
	case NM:
		if plainName(t.S) {
			return t.S
		}
		return "`" + strings.ReplaceAll(t.S, "`", "``") + "`"
	}
	return t.S
}

func isStart(r rune) bool { return r == '_' || unicode.IsLetter(r) }
func isPart(r rune) bool  { return isStart(r) || unicode.IsDigit(r) }

func plainName(s string) bool {
	if s == "" || !utf8.ValidString(s) {
		return false
	}
	for i, r := range s {
		if i == 0 && !isStart(r) || i > 0 && !isPart(r) {
			return false
		}
	}
	return true
}

func asciiDigit(b byte) bool { return b >= '0' && b <= '9' }

// Lex reads a whole statement.
func Lex(s string) ([]Tok, error) {
	out := make([]Tok, 0, 32)
	i := 0
	for i < len(s) {
		b := s[i]
		switch {
		case b == ' ' || b == '\n' || b == '\t' || b == '\r':
			i++
		case b == '`':
			var sb strings.Builder
			i++
			closed := false
			for i < len(s) {
				if s[i] == '`' {
					if i+1 < len(s) && s[i+1] == '`' {
						sb.WriteByte('`')
						i += 2
						continue
					}
					i++
					closed = true
					break
				}
				sb.WriteByte(s[i])
				i++
			}
			if !closed {
				return out, fmt.Errorf("unterminated backtick name")
			}
			if sb.Len() == 0 {
				return out, fmt.Errorf("empty backtick name")
			}
			out = append(out, Tok{K: Quoted, S: sb.String()})
		case b == '\'' || b == '"':
			q := b
			var sb strings.Builder
			i++
			closed := false
			for i < len(s) {
				c := s[i]
				if c == q {
					i++
					closed = true
					break
				}
				if c == '\\' {
					if i+1 >= len(s) {
						return out, fmt.Errorf("unterminated escape")
					}
					e := s[i+1]
					i += 2
					switch e {
					case '\\', '\'', '"', '`':
						sb.WriteByte(e)
					case 'n':
						sb.WriteByte('\n')
					case 't':
						sb.WriteByte('\t')
					case 'r':
						sb.WriteByte('\r')
					case 'b':
						sb.WriteByte('\b')
					case 'f':
						sb.WriteByte('\f')
					case 'u', 'U':
						n := 4
						if e == 'U' {
							n = 8
						}
						if i+n > len(s) {
							return out, fmt.Errorf("bad unicode escape")
						}
						v := 0
						for k := 0; k < n; k++ {
							d := hexVal(s[i+k])
							if d < 0 {
								return out, fmt.Errorf("bad unicode escape")
							}
							v = v*16 + d
						}
						i += n
						sb.WriteRune(rune(v))
					default:
						return out, fmt.Errorf("unknown escape \\%c", e)
					}
					continue
				}
				sb.WriteByte(c)
				i++
			}
			if !closed {
				return out, fmt.Errorf("unterminated string literal")
			}
			out = append(out, Tok{K: Str, S: sb.String()})
		case asciiDigit(b):
			j := i
			for j < len(s) && asciiDigit(s[j]) {
				j++
			}
			if j+1 < len(s) && s[j] == '.' && asciiDigit(s[j+1]) {
				j++
				for j < len(s) && asciiDigit(s[j]) {
					j++
				}
			}
			if j < len(s) && (s[j] == 'e' || s[j] == 'E') {
				k := j + 1
				if k < len(s) && s[k] == '-' {
					k++
				}
				if k < len(s) && asciiDigit(s[k]) {
					for k < len(s) && asciiDigit(s[k]) {
						k++
					}
					j = k
				}
			}
			if j < len(s) {
				if r, _ := utf8.DecodeRuneInString(s[j:]); isPart(r) {
					return out, fmt.Errorf("malformed number %q", s[i:j+1])
				}
			}
			n, ok := new(big.Rat).SetString(s[i:j])
			if !ok {
				return out, fmt.Errorf("malformed number %q", s[i:j])
			}
			out = append(out, Tok{K: Num, S: s[i:j], N: n})
			i = j
		default:
			r, sz := utf8.DecodeRuneInString(s[i:])
			if isStart(r) {
				j := i + sz
				for j < len(s) {
					r, sz := utf8.DecodeRuneInString(s[j:])
					if !isPart(r) {
						break
					}
					j += sz
				}
				out = append(out, Tok{K: Word, S: s[i:j]})
				i = j
				continue
			}
			if i+1 < len(s) {
				two := s[i : i+2]
				switch two {
				case "<>", "<=", ">=", "=~", "+=", "..":
					out = append(out, Tok{K: Sym, S: two})
					i += 2
					continue
				case "//", "/*":
					return out, fmt.Errorf("comment in statement")
				}
			}
			if strings.IndexByte("()[]{},.:|=<>+-*/%^$", b) >= 0 {
				out = append(out, Tok{K: Sym, S: string(b)})
				i++
				continue
			}
			return out, fmt.Errorf("unexpected character %q at %d", r, i)
		}
	}
	return out, nil
}

func hexVal(b byte) int {
	switch {
	case b >= '0' && b <= '9':
		return int(b - '0')
	case b >= 'a' && b <= 'f':
		return int(b-'a') + 10
	case b >= 'A' && b <= 'F':
		return int(b-'A') + 10
	}
	return -1
}

func match(want, got Tok) bool {
	switch want.K {
	case KW:
		return got.K == Word && strings.EqualFold(want.S, got.S)
	case NM:
		return (got.K == Quoted || got.K == Word) && got.S == want.S
	case Num:
		return got.K == Num && got.N.Cmp(want.N) == 0
	case Flt:
		if got.K != Num {
			return false
		}
		a, _ := got.N.Float64()
		b, _ := want.N.Float64()
		return a == b
	}
	return want.K == got.K && want.S == got.S
}

func toks(ts []Tok) string {
	var sb strings.Builder
	for i, t := range ts {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(t.String())
	}
	return sb.String()
}

// diffToks gives "" when the text reads as exactly the wanted tokens.
func diffToks(text string, want []Tok) string {
	got, err := Lex(text)
	if err != nil {
		return fmt.Sprintf("text can not be read: %v: %q; expected %s", err, text, toks(want))
	}
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("text ends too early: %q; expected %s", text, toks(want))
		}
		if !match(want[i], got[i]) {
			return fmt.Sprintf("token %d is %s instead of %s: text %q; expected %s", i, got[i], want[i], text, toks(want))
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("text goes on with %s: %q; expected %s", got[len(want)], text, toks(want))
	}
	return ""
}
