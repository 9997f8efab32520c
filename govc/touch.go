package main

import (
	"fmt"
	"sort"
	"strings"
)

// touched rewrites a goal so that the trigger terms of its universal
// quantifiers occur in the body: forall x {t(x)} B becomes
// forall x (touch(t(x)) => B) with touch uninterpreted. What is proved then
// holds for every interpretation of touch, in particular the one that is
// always true, so the rewritten goal implies the goal. Without it the trigger
// term of a refuted quantifier is lost and facts with the same trigger are not
// found.
func (e *Enc) touched(goal string) (string, string) {
	used := map[string]bool{}
	g := e.touchPos(goal, used)
	if len(used) == 0 {
		return "", goal
	}
	var ss []string
	for s := range used {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	d := ""
	for _, s := range ss {
		d += fmt.Sprintf("(declare-fun touch_%s (%s) Bool) ", sanitize(s), s)
	}
	return d, g
}

// sparts splits "(a b c)" into its top-level parts.
func sparts(s string) []string {
	if len(s) < 2 || s[0] != '(' {
		return nil
	}
	var out []string
	depth, start, bar := 0, -1, false
	for i := 1; i < len(s)-1; i++ {
		c := s[i]
		if bar {
			if c == '|' {
				bar = false
			}
			continue
		}
		switch {
		case c == '|':
			bar = true
			if start < 0 {
				start = i
			}
		case c == '(':
			if start < 0 {
				start = i
			}
			depth++
		case c == ')':
			depth--
		case c == ' ' && depth == 0:
			if start >= 0 {
				out = append(out, s[start:i])
				start = -1
			}
		default:
			if start < 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		out = append(out, s[start:len(s)-1])
	}
	return out
}

func (e *Enc) touchPos(s string, used map[string]bool) string {
	ps := sparts(s)
	if len(ps) == 0 {
		return s
	}
	switch {
	case ps[0] == "and":
		for i := 1; i < len(ps); i++ {
			ps[i] = e.touchPos(ps[i], used)
		}
	case ps[0] == "=>" && len(ps) == 3:
		ps[2] = e.touchPos(ps[2], used)
	case ps[0] == "let" && len(ps) == 3:
		ps[2] = e.touchPos(ps[2], used)
	case ps[0] == "forall" && len(ps) == 3:
		in := sparts(ps[2])
		if len(in) == 4 && in[0] == "!" && in[2] == ":pattern" {
			body := e.touchPos(in[1], used)
			var ts []string
			for _, t := range sparts(in[3]) {
				if so, ok := e.trigSort[t]; ok && t[0] == '(' {
					used[so] = true
					ts = append(ts, "(touch_"+sanitize(so)+" "+t+")")
				}
			}
			if len(ts) > 0 {
				body = "(=> (and true " + strings.Join(ts, " ") + ") " + body + ")"
			}
			in[1] = body
		}
		ps[2] = "(" + strings.Join(in, " ") + ")"
	default:
		return s
	}
	return "(" + strings.Join(ps, " ") + ")"
}
