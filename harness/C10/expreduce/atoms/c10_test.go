package atoms

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

func c10Names() []string {
	var ns []string
	tp := reflect.TypeOf(expreduceapi.Attributes{})
	for i := 0; i < tp.NumField(); i++ {
		ns = append(ns, tp.Field(i).Name)
	}
	sort.Strings(ns)
	return ns
}

// c10Known are the names the language knows; a flag of another name would be
// a new attribute, which the contract covers only once it is listed.
func c10FlagsOf(set map[string]bool) expreduceapi.Attributes {
	a := expreduceapi.Attributes{}
	v := reflect.ValueOf(&a).Elem()
	for i := 0; i < v.NumField(); i++ {
		v.Field(i).SetBool(set[v.Type().Field(i).Name])
	}
	return a
}

func TestVerifC10(t *testing.T) {
	r := vStart(t, "name lists drawn with order, repetition and unknown names, and flag sets: all of size <=2 and their complements, and random ones; non-trivial when at least one flag or name occurs", "19 flags; lists of at most 40 names")
	defer r.Done()
	names := c10Names()
	unknown := []string{"", "orderless", "Flat ", "HoldAl", "HoldAllCompleteX", "Hold", "System`Flat", "OneIdentit", "ReadProtect", "NHold", "FlatFlat"}
	one := func(list []string) {
		in := fmt.Sprintf("%q", list)
		r.Run("names-to-flags", in, func() {
			cp := append([]string{}, list...)
			got := StringsToAttributes(list)
			set := map[string]bool{}
			for _, n := range cp {
				set[n] = true
			}
			want := c10FlagsOf(set)
			r.Check("names-to-flags", in, len(list) > 0, got == want, fmt.Sprintf("%+v", want), fmt.Sprintf("%+v", got))
			if !reflect.DeepEqual(cp, list) && len(list) > 0 {
				r.Fail("names-to-flags input kept", in, fmt.Sprintf("%q", cp), fmt.Sprintf("%q", list))
			}
		})
	}
	two := func(set map[string]bool) {
		a := c10FlagsOf(set)
		want := []string{}
		for _, n := range names {
			if set[n] {
				want = append(want, n)
			}
		}
		in := strings.Join(want, ",")
		r.Run("flags-to-names", in, func() {
			b := a
			got := AttrsToStrings(&a)
			r.Check("flags-to-names", in, len(want) > 0, reflect.DeepEqual(append([]string{}, got...), want), fmt.Sprintf("%q", want), fmt.Sprintf("%q", got))
			if a != b {
				r.Fail("flags-to-names input kept", in, fmt.Sprintf("%+v", b), fmt.Sprintf("%+v", a))
			}
			l := AttrsToSymList(&a)
			s := "{"
			for i, n := range want {
				if i > 0 {
					s += ", "
				}
				s += n
			}
			s += "}"
			ok := len(l.GetParts()) == len(want)+1 && symIs(l.GetParts()[0], "System`List")
			for i := range want {
				ok = ok && symIs(l.GetParts()[i+1], "System`"+want[i])
			}
			r.Check("flags-to-symbol-list", in, len(want) > 0, ok, s, l.(*Expression).String())
			back := StringsToAttributes(got)
			r.Check("round-trip", in, len(want) > 0, back == b, fmt.Sprintf("%+v", b), fmt.Sprintf("%+v", back))
		})
	}
	one(nil)
	for _, n := range append(append([]string{}, names...), unknown...) {
		one([]string{n})
		one([]string{n, n})
		for _, m := range names {
			one([]string{n, m})
			one([]string{m, "x", n, m})
		}
	}
	two(map[string]bool{})
	for _, n := range names {
		two(map[string]bool{n: true})
		for _, m := range names {
			two(map[string]bool{n: true, m: true})
			c := map[string]bool{}
			for _, k := range names {
				c[k] = k != n && k != m
			}
			two(c)
		}
	}
	k := 3000
	if r.Deep {
		k = 60000
	}
	for i := 0; i < k && !r.Failed(); i++ {
		var l []string
		for j := r.Rnd.Intn(40); j > 0; j-- {
			if r.Rnd.Intn(4) == 0 {
				l = append(l, unknown[r.Rnd.Intn(len(unknown))])
			} else {
				l = append(l, names[r.Rnd.Intn(len(names))])
			}
		}
		one(l)
		s := map[string]bool{}
		p := r.Rnd.Intn(19) + 1
		for _, n := range names {
			s[n] = r.Rnd.Intn(20) < p
		}
		two(s)
	}
}

func symIs(e expreduceapi.Ex, name string) bool {
	s, ok := e.(*Symbol)
	return ok && s.Name == name
}
