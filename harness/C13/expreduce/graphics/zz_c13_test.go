package graphics

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
	chart "github.com/wcharczuk/go-chart"
	"github.com/wcharczuk/go-chart/drawing"
)

type c13ex = expreduceapi.Ex

func c13s(n string) c13ex { return atoms.NewSymbol("System`" + n) }
func c13f(v float64) c13ex {
	return atoms.NewReal(big.NewFloat(v))
}
func c13e(h string, a ...c13ex) c13ex {
	return atoms.NewExpression(append([]c13ex{c13s(h)}, a...))
}

func c13show(e c13ex) string {
	switch x := e.(type) {
	case *atoms.Symbol:
		return strings.TrimPrefix(x.Name, "System`")
	case *atoms.Flt:
		f, _ := x.Val.Float64()
		s := fmt.Sprint(f)
		if !strings.ContainsAny(s, ".e") {
			s += "."
		}
		return s
	case *atoms.Integer:
		return x.Val.String()
	case *atoms.String:
		return fmt.Sprintf("%q", x.Val)
	case *atoms.Expression:
		var s []string
		for _, p := range x.Parts[1:] {
			s = append(s, c13show(p))
		}
		if h, ok := x.Parts[0].(*atoms.Symbol); ok && h.Name == "System`List" {
			return "{" + strings.Join(s, ",") + "}"
		}
		return c13show(x.Parts[0]) + "[" + strings.Join(s, ",") + "]"
	}
	return fmt.Sprintf("%T", e)
}

// the reference: a list of lines, each with its style and points
type c13line struct {
	r, g, b, a uint8
	width      float64
	x, y       []float64
}
type c13style struct {
	r, g, b, a uint8
	width      float64
}

func c13head(e c13ex) (string, []c13ex) {
	x, ok := e.(*atoms.Expression)
	if !ok {
		return "", nil
	}
	s, ok := x.Parts[0].(*atoms.Symbol)
	if !ok {
		return "", nil
	}
	return strings.TrimPrefix(s.Name, "System`"), x.Parts[1:]
}
func c13num(e c13ex) (float64, bool) {
	x, ok := e.(*atoms.Flt)
	if !ok {
		return 0, false
	}
	f, _ := x.Val.Float64()
	return f, true
}
func c13comp(e c13ex) (uint8, bool) {
	x, ok := e.(*atoms.Flt)
	if !ok {
		return 0, false
	}
	f, _ := x.Val.Float32()
	return uint8(f * 255), true
}

// c13ref draws e into out, giving the style in effect afterwards; ok is false for malformed elements.
func c13ref(e c13ex, s c13style, out *[]c13line) (c13style, bool) {
	h, args := c13head(e)
	switch h {
	case "List":
		t := s
		for _, a := range args {
			var ok bool
			if t, ok = c13ref(a, t, out); !ok {
				return s, false
			}
		}
		return s, true
	case "Directive":
		for _, a := range args {
			dh, da := c13head(a)
			switch dh {
			case "RGBColor":
				if len(da) != 3 {
					return s, false
				}
				var c [3]uint8
				for i := range c {
					v, ok := c13comp(da[i])
					if !ok {
						return s, false
					}
					c[i] = v
				}
				s.r, s.g, s.b = c[0], c[1], c[2]
			case "Opacity":
				if len(da) != 1 {
					return s, false
				}
				v, ok := c13comp(da[0])
				if !ok {
					return s, false
				}
				s.a = v
			case "AbsoluteThickness":
				if len(da) != 1 {
					return s, false
				}
				v, ok := c13num(da[0])
				if !ok {
					return s, false
				}
				s.width = v
			}
		}
		return s, true
	case "Line":
		if len(args) != 1 {
			return s, false
		}
		ph, pts := c13head(args[0])
		if ph != "List" {
			return s, false
		}
		l := c13line{r: s.r, g: s.g, b: s.b, a: s.a, width: s.width}
		for _, p := range pts {
			h, c := c13head(p)
			if h != "List" || len(c) != 2 {
				return s, false
			}
			x, ok1 := c13num(c[0])
			y, ok2 := c13num(c[1])
			if !ok1 || !ok2 {
				return s, false
			}
			l.x, l.y = append(l.x, x), append(l.y, y)
		}
		*out = append(*out, l)
		return s, true
	}
	return s, true
}

func c13fmt(ls []c13line) string {
	var s []string
	for _, l := range ls {
		var p []string
		for i := range l.x {
			p = append(p, fmt.Sprintf("(%v,%v)", l.x[i], l.y[i]))
		}
		s = append(s, fmt.Sprintf("line %s rgba %d,%d,%d,%d width %v", strings.Join(p, ""), l.r, l.g, l.b, l.a, l.width))
	}
	return fmt.Sprintf("%d lines: %s", len(ls), strings.Join(s, "; "))
}

func c13got(g chart.Chart) string {
	var ls []c13line
	for _, s := range g.Series {
		c, ok := s.(chart.ContinuousSeries)
		if !ok {
			return fmt.Sprintf("a series of type %T", s)
		}
		if len(c.XValues) != len(c.YValues) {
			return fmt.Sprintf("a line with %d x and %d y coordinates", len(c.XValues), len(c.YValues))
		}
		if !c.Style.Show {
			return "a line that is not shown"
		}
		o := c.Style
		ls = append(ls, c13line{o.StrokeColor.R, o.StrokeColor.G, o.StrokeColor.B, o.StrokeColor.A, o.StrokeWidth, c.XValues, c.YValues})
	}
	return c13fmt(ls)
}

func c13gen(r *vRec, depth int, odd bool) c13ex {
	co := func() c13ex { return c13f(float64(r.Rnd.Intn(4001)-2000) / 8) }
	un := func() c13ex { return c13f(float64(r.Rnd.Intn(256)) / 255) }
	bad := func() bool { return odd && r.Rnd.Intn(12) == 0 }
	weird := func() c13ex {
		return []c13ex{atoms.NewInteger(big.NewInt(1)), c13s("x"), c13e("List"), atoms.NewString("s"), c13e("List", co())}[r.Rnd.Intn(5)]
	}
	pick := func(c c13ex) c13ex {
		if bad() {
			return weird()
		}
		return c
	}
	many := func(n int, f func() c13ex) []c13ex {
		if bad() {
			n += 1 - 2*r.Rnd.Intn(2)
		}
		var l []c13ex
		for i := 0; i < n; i++ {
			l = append(l, pick(f()))
		}
		return l
	}
	k := r.Rnd.Intn(10)
	if depth <= 0 && k < 4 {
		k = 4
	}
	switch {
	case k < 4:
		var l []c13ex
		for i := r.Rnd.Intn(5); i > 0; i-- {
			l = append(l, c13gen(r, depth-1, odd))
		}
		return c13e("List", l...)
	case k < 7:
		return c13e("Line", many(1, func() c13ex {
			var l []c13ex
			for i := r.Rnd.Intn(4); i > 0; i-- {
				l = append(l, pick(c13e("List", many(2, co)...)))
			}
			return c13e("List", l...)
		})...)
	case k < 9 || !odd:
		var l []c13ex
		for i := r.Rnd.Intn(4); i > 0; i-- {
			switch r.Rnd.Intn(3) {
			case 0:
				l = append(l, c13e("RGBColor", many(3, un)...))
			case 1:
				l = append(l, c13e("Opacity", many(1, un)...))
			default:
				l = append(l, c13e("AbsoluteThickness", many(1, co)...))
			}
			l[len(l)-1] = pick(l[len(l)-1])
		}
		return c13e("Directive", l...)
	}
	return []c13ex{c13e("Circle", c13e("List", co(), co())), c13s("Red"), co(), c13e("Point", c13e("List", co(), co())), c13e("RGBColor", un(), un(), un())}[r.Rnd.Intn(5)]
}

func c13check(r *vRec, prim c13ex) {
	e := c13e("Graphics", prim)
	in := c13show(e)
	r.Run("drawn", in, func() {
		var want []c13line
		k := drawing.ColorBlack
		_, ok := c13ref(prim, c13style{r: k.R, g: k.G, b: k.B, a: k.A}, &want)
		g, err := Render(e)
		exp := "an error"
		if ok {
			exp = c13fmt(want)
		}
		got := "an error"
		if err == nil {
			got = c13got(g)
		}
		clause := "drawn"
		if !ok {
			clause = "malformed"
		}
		r.Check(clause, in, len(want) > 0 || !ok, exp == got, exp, got)
		if !ok {
			_, err := RenderAsPNG(e)
			r.Check("malformed", in+" as PNG", true, err != nil, "an error", "no error")
		}
		after := c13show(e)
		r.Check("unchanged", in, true, after == in, in, after)
	})
}

func TestVerifC13Render(t *testing.T) {
	n := 4000
	r := vStart(t, "Every line is drawn once, in order, with its points and the style in effect; malformed elements give an error", "random nestings up to depth 4, up to 4 elements a level, coordinates and components on a grid")
	defer r.Done()
	if r.Deep {
		n = 60000
	}
	for i := 0; i < n && !r.Failed(); i++ {
		c13check(r, c13gen(r, 1+i%4, i%2 == 1))
	}
	// every element of every malformed kind, on its own and below lists
	f := c13f
	pt := func(a, b float64) c13ex { return c13e("List", f(a), f(b)) }
	i1 := atoms.NewInteger(big.NewInt(1))
	good := c13e("Line", c13e("List", pt(0, 1), pt(2, 3)))
	bads := []c13ex{
		c13e("Line"), c13e("Line", pt(0, 1)), c13e("Line", c13e("List", pt(0, 1)), c13e("List", pt(0, 1))), c13e("Line", c13s("x")),
		c13e("Line", c13e("List", pt(0, 1), c13e("List", f(1)))), c13e("Line", c13e("List", pt(0, 1), c13e("List", f(1), f(2), f(3)))),
		c13e("Line", c13e("List", c13e("List", f(1), i1))), c13e("Line", c13e("List", c13e("List", i1, f(1)))), c13e("Line", c13e("List", c13e("f", f(1), f(1)))),
		c13e("Directive", c13e("RGBColor", f(1), f(1))), c13e("Directive", c13e("RGBColor", f(1), f(1), f(1), f(1))), c13e("Directive", c13e("RGBColor", i1, f(1), f(1))),
		c13e("Directive", c13e("RGBColor", f(1), i1, f(1))), c13e("Directive", c13e("RGBColor", f(1), f(1), i1)), c13e("Directive", c13e("Opacity")), c13e("Directive", c13e("Opacity", i1)),
		c13e("Directive", c13e("AbsoluteThickness")), c13e("Directive", c13e("AbsoluteThickness", f(1), f(1))), c13e("Directive", c13e("AbsoluteThickness", c13s("x"))),
		c13e("Line", c13e("List")), c13e("List"), c13e("Directive"), c13s("x"), f(1), c13e("Directive", c13s("Red"), c13e("Opacity", f(0.5))),
	}
	for _, b := range bads {
		c13check(r, b)
		c13check(r, c13e("List", good, b))
		c13check(r, c13e("List", b, good))
		c13check(r, c13e("List", good, c13e("List", c13e("List", b), good), good))
		c13check(r, c13e("List", b, b, good))
	}
	// directives: order, scope
	ds := []c13ex{c13e("RGBColor", f(1), f(0.5), f(0.25)), c13e("RGBColor", f(0), f(1), f(0)), c13e("Opacity", f(0.5)), c13e("Opacity", f(1)), c13e("AbsoluteThickness", f(2)), c13e("AbsoluteThickness", f(0))}
	for _, a := range ds {
		for _, b := range ds {
			for _, c := range ds {
				d1, d2 := c13e("Directive", a, b), c13e("Directive", c)
				c13check(r, c13e("List", d1, good, c13e("List", d2, good), good))
				c13check(r, c13e("List", c13e("List", d1, good), good, d2, good, c13e("List", good)))
				c13check(r, c13e("List", good, d1, c13e("List", c13e("List", good, d2), good), good))
			}
		}
	}
	// every component value
	for k := 0; k < 256; k++ {
		v := f(float64(k) / 255)
		for p := 0; p < 3; p++ {
			c := []c13ex{f(0), f(0), f(0)}
			c[p] = v
			c13check(r, c13e("List", c13e("Directive", c13e("RGBColor", c...), c13e("Opacity", f(float64(255-k)/255))), good))
		}
	}
	for _, e := range []c13ex{c13e("Graphics"), c13e("List", good), good, c13s("Graphics")} {
		_, err := Render(e)
		r.Check("malformed", c13show(e), true, err != nil, "an error", "no error")
	}
}
