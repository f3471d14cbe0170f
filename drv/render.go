package main

// Rendering of token sequences to query text: the layout (blanks, comments,
// letter case) is the driver's free choice, the token sequence is the
// specification's.

import (
	"math/rand"
	"strings"
)

type Tok struct {
	K string `json:"k"`
	L string `json:"l"`
	T string `json:"t"`
	C string `json:"c,omitempty"`
	V string `json:"v"`
	R string `json:"r,omitempty"`

	width int // of the text of the token, in bytes
}

type Style struct {
	Case     int // 0 as is, 1 upper, 2 mixed, 3 random per token
	Layout   int // 0 single blanks, 1 minimal, 2 wild
	Comments bool
}

func styleFor(r *rand.Rand) Style {
	return Style{Case: []int{0, 0, 1, 2, 3}[r.Intn(5)], Layout: []int{0, 0, 1, 2}[r.Intn(4)], Comments: r.Intn(3) == 0}
}

func recase(r *rand.Rand, s string, mode int) string {
	if mode == 3 {
		mode = r.Intn(3)
	}
	if mode != 1 && mode != 2 {
		return s
	}
	b := []rune(s)
	for i := range b {
		if mode == 1 || r.Intn(2) == 0 {
			b[i] = raise(b[i])
		}
	}
	return string(b)
}

func wordish(t Tok) bool {
	switch t.K {
	case "id", "lit", "dtn", "bad", "par":
		return true
	}
	return false
}

// a separator is required after these words, even before punctuation
var sepAfter = map[string]bool{"select": true, "from": true, "by": true, "group": true, "order": true,
	"limit": true, "offset": true, "for": true, "nulls": true, "where": true, "having": true}

func needSep(a, b Tok) bool {
	if a.K == "id" && sepAfter[a.L] {
		if (a.L == "where" || a.L == "having") && b.K == "p" && b.L == "(" {
			return false
		}
		return true
	}
	if a.K == "id" && a.L == "not" && !(b.K == "p" && b.L == "(") {
		return true
	}
	if a.K == "p" && b.K == "p" && (a.L == "." || b.L == ".") {
		return true
	}
	if a.K == "p" || b.K == "p" {
		// '.' next to a number would be read as a part of it
		if (a.K == "p" && a.L == ".") || (b.K == "p" && b.L == ".") {
			return a.K == "lit" || b.K == "lit" || a.K == "bad" || b.K == "bad"
		}
		return false
	}
	if a.K == "op" && b.K == "op" {
		return true
	}
	if a.K == "op" || b.K == "op" {
		return a.K == "bad" || b.K == "bad"
	}
	if a.K == "qid" && (b.K == "id" || b.K == "qid") {
		return false
	}
	return true
}

// less usual comments
var comments = []string{"/***/", "/* **/", "/** x **/", "/* /* x */", "/*/ x */", "/*\r\n*/", "/* \\ \" é😀 ; ? */", "/*--*/", "/*'*/",
	"-- /* x\n", "--- \"\n", "-- */\r\n", "----\n", "-- é😀\n", "--'\n", "-- x\r", "/* a\n b\n c */", "/* " + strings.Repeat("x y ", 50) + "*/"}

// blanks are not accepted before these (function calls excepted: they are)
func blank(r *rand.Rand, st Style) string {
	one := func() string {
		switch r.Intn(7) {
		case 0:
			return "\t"
		case 1:
			return "\n"
		case 2:
			return "\r\n"
		case 3:
			return "  "
		}
		return " "
	}
	com := func() string {
		switch r.Intn(8) {
		case 0:
			return "-- select it's\n"
		case 6, 7:
			return comments[r.Intn(len(comments))]
		case 1:
			return "--\r\n"
		case 2:
			return "/**/"
		case 3:
			return "/* from ' x */"
		case 4:
			return "/* -- \n * */"
		}
		return "/* 1 */"
	}
	s := one()
	for r.Intn(3) == 0 {
		s += one()
	}
	if st.Comments && r.Intn(3) == 0 {
		s += com()
		for r.Intn(3) == 0 {
			s += one()
		}
		if r.Intn(4) == 0 {
			// a comment alone separates as well
			return strings.TrimLeft(s, " \t\r\n")
		}
	}
	return s
}

func sep(r *rand.Rand, a, b Tok, st Style) string {
	need := needSep(a, b)
	switch st.Layout {
	case 1:
		if need {
			return " "
		}
		return ""
	case 2:
		if !need && r.Intn(2) == 0 {
			return ""
		}
		return blank(r, st)
	}
	if a.K == "p" && (a.L == "." || a.L == "(") || b.K == "p" && (b.L == "." || b.L == "," || b.L == ")") {
		if !need {
			return ""
		}
	}
	if st.Comments && r.Intn(10) == 0 {
		return blank(r, st)
	}
	return " "
}

// render returns the text and the tokens with the texts as written.
func render(toks []Tok, r *rand.Rand, st Style) (string, []Tok) {
	text, out, _ := renderAt(toks, r, st)
	return text, out
}

// renderAt also returns where the tokens start.
func renderAt(toks []Tok, r *rand.Rand, st Style) (string, []Tok, []int) {
	out := make([]Tok, len(toks))
	at := make([]int, len(toks))
	copy(out, toks)
	var sb strings.Builder
	if st.Layout == 2 && r.Intn(2) == 0 {
		sb.WriteString(blank(r, st))
	}
	for i := range out {
		t := &out[i]
		if i > 0 {
			sb.WriteString(sep(r, out[i-1], *t, st))
		}
		at[i] = sb.Len()
		switch t.K {
		case "id", "par", "dtn":
			t.T = recase(r, t.T, st.Case)
		case "qid":
			if st.Case != 0 {
				t.T = recase(r, t.T, st.Case)
			}
		}
		switch t.K {
		case "par":
			sb.WriteString(":")
			if st.Layout == 2 && r.Intn(4) == 0 {
				sb.WriteString(blank(r, st))
			}
			sb.WriteString(t.T)
		case "dtn":
			sb.WriteString(t.T + ":" + t.V)
		case "qid":
			sb.WriteString("\"" + strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(t.T) + "\"")
		case "lit":
			sb.WriteString(t.R)
		default:
			sb.WriteString(t.T)
		}
		t.width = sb.Len() - at[i]
	}
	if st.Layout == 2 && r.Intn(2) == 0 {
		sb.WriteString(blank(r, st))
	}
	return sb.String(), out, at
}
