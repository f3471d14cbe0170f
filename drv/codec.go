package main

// TLC's strings are ASCII: in cases and observations u{e9} stands for é.

import (
	"bytes"
	"encoding/json"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

func esc(w *bytes.Buffer, r rune) {
	w.WriteString("u{" + strconv.FormatInt(int64(r), 16) + "}")
}

// encode replaces what is not ASCII in a JSON text
func encode(b []byte) []byte {
	var w bytes.Buffer
	for i := 0; i < len(b); {
		switch c := b[i]; {
		case c == '\\' && i+5 < len(b) && b[i+1] == 'u':
			n, err := strconv.ParseUint(string(b[i+2:i+6]), 16, 32)
			if err == nil && n >= 0x80 {
				esc(&w, rune(n))
			} else {
				w.Write(b[i : i+6])
			}
			i += 6
		case c == '\\' && i+1 < len(b):
			w.Write(b[i : i+2])
			i += 2
		case c < 0x80:
			w.WriteByte(c)
			i++
		default:
			r, n := utf8.DecodeRune(b[i:])
			esc(&w, r)
			i += n
		}
	}
	return w.Bytes()
}

func decode(s string) string {
	if !strings.Contains(s, "u{") {
		return s
	}
	var w strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "u{") {
			if j := strings.IndexByte(s[i:], '}'); j > 0 {
				if n, err := strconv.ParseUint(s[i+2:i+j], 16, 32); err == nil {
					w.WriteRune(rune(n))
					i += j + 1
					continue
				}
			}
		}
		w.WriteByte(s[i])
		i++
	}
	return w.String()
}

// raise returns an upper-case form of r that folds back to it, if there is one
func raise(r rune) rune {
	if u := unicode.ToUpper(r); unicode.ToLower(u) == r {
		return u
	}
	return r
}

type plainTok Tok

func (t *Tok) UnmarshalJSON(b []byte) error {
	var z plainTok
	if err := json.Unmarshal(b, &z); err != nil {
		return err
	}
	for _, s := range []*string{&z.L, &z.T, &z.V, &z.R} {
		*s = decode(*s)
	}
	*t = Tok(z)
	return nil
}
