package main

import (
	"fmt"
	"strings"
)

// a short rendering for people
func pretty(t *Term) string {
	var f func(t *Term) string
	f = func(t *Term) string {
		switch t.Op {
		case "select":
			n := f(t.Args[0])
			if i := strings.LastIndex(n, "."); i >= 0 {
				n = n[i+1:]
			}
			return strings.TrimSuffix(n, "@0") + "[" + f(t.Args[1]) + "]"
		case "ite":
			s := fmt.Sprintf("(%s ? %s : %s)", f(t.Args[0]), f(t.Args[1]), f(t.Args[2]))
			if len(s) > 160 {
				return fmt.Sprintf("I%d", t.id)
			}
			return s
		case "extract":
			return fmt.Sprintf("%s[%s;%s]", f(t.Args[0]), f(t.Args[1]), f(t.Args[2]))
		case "len":
			return "|" + f(t.Args[0]) + "|"
		case "concat":
			var ss []string
			for _, a := range t.Args {
				ss = append(ss, f(a))
			}
			return strings.Join(ss, " ++ ")
		case "app":
			var ss []string
			for _, a := range t.Args {
				s := f(a)
				if len(s) > 60 {
					s = fmt.Sprintf("T%d", a.id)
				}
				ss = append(ss, s)
			}
			return t.Name + "(" + strings.Join(ss, ", ") + ")"
		}
		return t.render(f)
	}
	return f(t)
}
