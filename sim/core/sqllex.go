package core

import (
	"strings"
)

type tk int

const (
	tkSpace tk = iota
	tkWord
	tkNum
	tkIdent // quoted identifier
	tkParam
	tkString
	tkComment
	tkPunct
)

type tok struct {
	kind tk
	text string
}

// lexSQL splits statement text into tokens.
func lexSQL(q string) []tok {
	var out []tok
	i := 0
	add := func(k tk, j int) {
		out = append(out, tok{k, q[i:j]})
		i = j
	}
	word := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c >= 0x80
	}
	for i < len(q) {
		c := q[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			j := i
			for j < len(q) && strings.IndexByte(" \t\n\r", q[j]) >= 0 {
				j++
			}
			add(tkSpace, j)
		case c == '`' || c == '"':
			j := i + 1
			for j < len(q) {
				if q[j] == c {
					if j+1 < len(q) && q[j+1] == c {
						j += 2
						continue
					}
					break
				}
				j++
			}
			if j >= len(q) {
				add(tkString, len(q)) // unterminated
			} else {
				add(tkIdent, j+1)
			}
		case c == '\'':
			j := i + 1
			for j < len(q) {
				if q[j] == '\'' {
					if j+1 < len(q) && q[j+1] == '\'' {
						j += 2
						continue
					}
					break
				}
				j++
			}
			if j < len(q) {
				j++
			}
			add(tkString, j)
		case c == '-' && i+1 < len(q) && q[i+1] == '-':
			j := strings.IndexByte(q[i:], '\n')
			if j < 0 {
				add(tkComment, len(q))
			} else {
				add(tkComment, i+j)
			}
		case c == '/' && i+1 < len(q) && (q[i+1] == '*' || q[i+1] == '/'):
			j := strings.Index(q[i:], "*/")
			if j < 0 {
				add(tkComment, len(q))
			} else {
				add(tkComment, i+j+2)
			}
		case c == '?' || c == '$' || c == '@':
			j := i + 1
			for j < len(q) && word(q[j]) {
				j++
			}
			add(tkParam, j)
		case c == ':' && i+1 < len(q) && q[i+1] == ':':
			add(tkPunct, i+2)
		case c >= '0' && c <= '9':
			j := i
			for j < len(q) && (word(q[j]) || q[j] == '.') {
				j++
			}
			add(tkNum, j)
		case word(c):
			j := i
			for j < len(q) && word(q[j]) {
				j++
			}
			add(tkWord, j)
		case strings.IndexByte("<>=!&|", c) >= 0:
			j := i
			for j < len(q) && strings.IndexByte("<>=!&|", q[j]) >= 0 {
				j++
			}
			add(tkPunct, j)
		default:
			add(tkPunct, i+1)
		}
	}
	return out
}
