# C13: what a tree of graphics primitives draws.  c13_cnt: the number of lines;
# c13_lt, c13_ls: the Line expression drawn k-th and the style in effect for it.
package github.com/corywalker/expreduce/expreduce/graphics
logic bf_f32(BF) F64
logic c13_byte(Tree) Int
logic c13_x(Tree) F64
logic c13_1(Tree,|St:github.com/wcharczuk/go-chart.Style|) |St:github.com/wcharczuk/go-chart.Style|
logic c13_ds(Tree,|St:github.com/wcharczuk/go-chart.Style|,Int) |St:github.com/wcharczuk/go-chart.Style|
logic c13_sty(Tree,|St:github.com/wcharczuk/go-chart.Style|) |St:github.com/wcharczuk/go-chart.Style|
logic c13_sl(Tree,|St:github.com/wcharczuk/go-chart.Style|,Int) |St:github.com/wcharczuk/go-chart.Style|
logic c13_cnt(Tree) Int
logic c13_sum(Tree,Int) Int
logic c13_lt(Tree,Int) Tree
logic c13_ls(Tree,|St:github.com/wcharczuk/go-chart.Style|,Int) |St:github.com/wcharczuk/go-chart.Style|
logic c13_dok(Tree) Bool
logic c13_pok(Tree) Bool
logic c13_psok(Tree) Bool
logic c13_ok(Tree) Bool
logic c13_init(|St:github.com/wcharczuk/go-chart.Style|,|St:github.com/wcharczuk/go-chart/drawing.Color|) |St:github.com/wcharczuk/go-chart.Style|
logic c13_el((Array Int (Array Int Int)),Slice,Int) Int
logic c13_fl((Array Int F64),Int,Int) F64
smt bf_f32 bf_f32 {
(declare-fun bf_f32 (BF) F64)
}
smt c13_byte c13_byte c13_x c13_1 c13_ds c13_sty c13_sl c13_cnt c13_sum c13_lt c13_ls c13_dok c13_pok c13_psok c13_ok {
; a component: the nearest integer not above 255 times the given one, in single precision
(define-fun c13_byte ((t Tree)) Int (uint_of_f64 (f32_round (f64_mul (bf_f32 (tbf t)) (f64_of_int 255)))))
(define-fun c13_x ((t Tree)) F64 (bf_f64 (tbf t)))
(define-fun c13_pok ((t Tree)) Bool (and (c06_hd t @str("System`List")) (= (c06_len t) 3) (= (tkind (c06_part t 1)) 3) (= (tkind (c06_part t 2)) 3)))
(declare-fun c13_psok (Tree) Bool)
(declare-fun c13_psw (Tree) Int)
(assert (forall ((t Tree) (i Int)) (! (=> (and (c13_psok t) (<= 1 i) (< i (c06_len t))) (c13_pok (c06_part t i))) :pattern ((c13_psok t) (c06_part t i)))))
(assert (forall ((t Tree)) (! (let ((w (c13_psw t))) (=> (=> (and (<= 1 w) (< w (c06_len t))) (c13_pok (c06_part t w))) (c13_psok t))) :pattern ((c13_psok t)))))
; one style directive
(define-fun c13_1 ((p Tree) (s |St:github.com/wcharczuk/go-chart.Style|)) |St:github.com/wcharczuk/go-chart.Style|
  (ite (c06_hd p @str("System`RGBColor")) (|mk:github.com/wcharczuk/go-chart.Style| (|sel:github.com/wcharczuk/go-chart.Style.Show| s) (|sel:github.com/wcharczuk/go-chart.Style.Padding| s) (|sel:github.com/wcharczuk/go-chart.Style.StrokeWidth| s) (|mk:github.com/wcharczuk/go-chart/drawing.Color| (c13_byte (c06_part p 1)) (c13_byte (c06_part p 2)) (c13_byte (c06_part p 3)) (|sel:github.com/wcharczuk/go-chart/drawing.Color.A| (|sel:github.com/wcharczuk/go-chart.Style.StrokeColor| s))) (|sel:github.com/wcharczuk/go-chart.Style.StrokeDashArray| s) (|sel:github.com/wcharczuk/go-chart.Style.DotColor| s) (|sel:github.com/wcharczuk/go-chart.Style.DotWidth| s) (|sel:github.com/wcharczuk/go-chart.Style.DotWidthProvider| s) (|sel:github.com/wcharczuk/go-chart.Style.DotColorProvider| s) (|sel:github.com/wcharczuk/go-chart.Style.FillColor| s) (|sel:github.com/wcharczuk/go-chart.Style.FontSize| s) (|sel:github.com/wcharczuk/go-chart.Style.FontColor| s) (|sel:github.com/wcharczuk/go-chart.Style.Font| s) (|sel:github.com/wcharczuk/go-chart.Style.TextHorizontalAlign| s) (|sel:github.com/wcharczuk/go-chart.Style.TextVerticalAlign| s) (|sel:github.com/wcharczuk/go-chart.Style.TextWrap| s) (|sel:github.com/wcharczuk/go-chart.Style.TextLineSpacing| s) (|sel:github.com/wcharczuk/go-chart.Style.TextRotationDegrees| s))
  (ite (c06_hd p @str("System`Opacity")) (|mk:github.com/wcharczuk/go-chart.Style| (|sel:github.com/wcharczuk/go-chart.Style.Show| s) (|sel:github.com/wcharczuk/go-chart.Style.Padding| s) (|sel:github.com/wcharczuk/go-chart.Style.StrokeWidth| s) (|mk:github.com/wcharczuk/go-chart/drawing.Color| (|sel:github.com/wcharczuk/go-chart/drawing.Color.R| (|sel:github.com/wcharczuk/go-chart.Style.StrokeColor| s)) (|sel:github.com/wcharczuk/go-chart/drawing.Color.G| (|sel:github.com/wcharczuk/go-chart.Style.StrokeColor| s)) (|sel:github.com/wcharczuk/go-chart/drawing.Color.B| (|sel:github.com/wcharczuk/go-chart.Style.StrokeColor| s)) (c13_byte (c06_part p 1))) (|sel:github.com/wcharczuk/go-chart.Style.StrokeDashArray| s) (|sel:github.com/wcharczuk/go-chart.Style.DotColor| s) (|sel:github.com/wcharczuk/go-chart.Style.DotWidth| s) (|sel:github.com/wcharczuk/go-chart.Style.DotWidthProvider| s) (|sel:github.com/wcharczuk/go-chart.Style.DotColorProvider| s) (|sel:github.com/wcharczuk/go-chart.Style.FillColor| s) (|sel:github.com/wcharczuk/go-chart.Style.FontSize| s) (|sel:github.com/wcharczuk/go-chart.Style.FontColor| s) (|sel:github.com/wcharczuk/go-chart.Style.Font| s) (|sel:github.com/wcharczuk/go-chart.Style.TextHorizontalAlign| s) (|sel:github.com/wcharczuk/go-chart.Style.TextVerticalAlign| s) (|sel:github.com/wcharczuk/go-chart.Style.TextWrap| s) (|sel:github.com/wcharczuk/go-chart.Style.TextLineSpacing| s) (|sel:github.com/wcharczuk/go-chart.Style.TextRotationDegrees| s))
  (ite (c06_hd p @str("System`AbsoluteThickness")) (|mk:github.com/wcharczuk/go-chart.Style| (|sel:github.com/wcharczuk/go-chart.Style.Show| s) (|sel:github.com/wcharczuk/go-chart.Style.Padding| s) (c13_x (c06_part p 1)) (|sel:github.com/wcharczuk/go-chart.Style.StrokeColor| s) (|sel:github.com/wcharczuk/go-chart.Style.StrokeDashArray| s) (|sel:github.com/wcharczuk/go-chart.Style.DotColor| s) (|sel:github.com/wcharczuk/go-chart.Style.DotWidth| s) (|sel:github.com/wcharczuk/go-chart.Style.DotWidthProvider| s) (|sel:github.com/wcharczuk/go-chart.Style.DotColorProvider| s) (|sel:github.com/wcharczuk/go-chart.Style.FillColor| s) (|sel:github.com/wcharczuk/go-chart.Style.FontSize| s) (|sel:github.com/wcharczuk/go-chart.Style.FontColor| s) (|sel:github.com/wcharczuk/go-chart.Style.Font| s) (|sel:github.com/wcharczuk/go-chart.Style.TextHorizontalAlign| s) (|sel:github.com/wcharczuk/go-chart.Style.TextVerticalAlign| s) (|sel:github.com/wcharczuk/go-chart.Style.TextWrap| s) (|sel:github.com/wcharczuk/go-chart.Style.TextLineSpacing| s) (|sel:github.com/wcharczuk/go-chart.Style.TextRotationDegrees| s)) s))))
(define-fun c13_1ok ((p Tree)) Bool (and
  (=> (c06_hd p @str("System`RGBColor")) (and (= (c06_len p) 4) (= (tkind (c06_part p 1)) 3) (= (tkind (c06_part p 2)) 3) (= (tkind (c06_part p 3)) 3)))
  (=> (c06_hd p @str("System`Opacity")) (and (= (c06_len p) 2) (= (tkind (c06_part p 1)) 3)))
  (=> (c06_hd p @str("System`AbsoluteThickness")) (and (= (c06_len p) 2) (= (tkind (c06_part p 1)) 3)))))
(define-fun c13_dok ((p Tree)) Bool (c13_1ok p))
; the directives of a Directive, up to and including part i
(declare-fun c13_ds (Tree |St:github.com/wcharczuk/go-chart.Style| Int) |St:github.com/wcharczuk/go-chart.Style|)
(assert (forall ((t Tree) (s |St:github.com/wcharczuk/go-chart.Style|)) (! (= (c13_ds t s 0) s) :pattern ((c13_ds t s 0)))))
(assert (forall ((t Tree) (s |St:github.com/wcharczuk/go-chart.Style|) (i Int)) (! (=> (<= 1 i) (= (c13_ds t s i) (c13_1 (c06_part t i) (c13_ds t s (- i 1))))) :pattern ((c13_ds t s i) (c06_part t i)))))
(define-fun c13_sty ((t Tree) (s |St:github.com/wcharczuk/go-chart.Style|)) |St:github.com/wcharczuk/go-chart.Style| (ite (c06_hd t @str("System`Directive")) (c13_ds t s (- (c06_len t) 1)) s))
; the style after the elements of a list up to and including part i
(declare-fun c13_sl (Tree |St:github.com/wcharczuk/go-chart.Style| Int) |St:github.com/wcharczuk/go-chart.Style|)
(assert (forall ((t Tree) (s |St:github.com/wcharczuk/go-chart.Style|)) (! (= (c13_sl t s 0) s) :pattern ((c13_sl t s 0)))))
(assert (forall ((t Tree) (s |St:github.com/wcharczuk/go-chart.Style|) (i Int)) (! (=> (<= 1 i) (= (c13_sl t s i) (c13_sty (c06_part t i) (c13_sl t s (- i 1))))) :pattern ((c13_sl t s i) (c06_part t i)))))
(declare-fun c13_cnt (Tree) Int)
(declare-fun c13_sum (Tree Int) Int)
(assert (forall ((t Tree)) (! (and (<= 0 (c13_cnt t)) (= (c13_cnt t) (ite (c06_hd t @str("System`List")) (c13_sum t (- (c06_len t) 1)) (ite (c06_hd t @str("System`Line")) 1 0)))) :pattern ((c13_cnt t)))))
(assert (forall ((t Tree)) (! (= (c13_sum t 0) 0) :pattern ((c13_sum t 0)))))
(assert (forall ((t Tree) (i Int)) (! (=> (<= 0 i) (<= 0 (c13_sum t i))) :pattern ((c13_sum t i)))))
(assert (forall ((t Tree) (i Int)) (! (=> (<= 1 i) (= (c13_sum t i) (+ (c13_sum t (- i 1)) (c13_cnt (c06_part t i))))) :pattern ((c13_sum t i) (c06_part t i)))))
(declare-fun c13_lt (Tree Int) Tree)
(declare-fun c13_ls (Tree |St:github.com/wcharczuk/go-chart.Style| Int) |St:github.com/wcharczuk/go-chart.Style|)
(assert (forall ((t Tree) (k Int)) (! (=> (c06_hd t @str("System`Line")) (= (c13_lt t k) t)) :pattern ((c13_lt t k)))))
(assert (forall ((t Tree) (s |St:github.com/wcharczuk/go-chart.Style|) (k Int)) (! (=> (c06_hd t @str("System`Line")) (= (c13_ls t s k) s)) :pattern ((c13_ls t s k)))))
(assert (forall ((t Tree) (i Int) (k Int)) (! (=> (and (c06_hd t @str("System`List")) (<= 1 i) (< i (c06_len t)) (<= (c13_sum t (- i 1)) k) (< k (+ (c13_sum t (- i 1)) (c13_cnt (c06_part t i)))))
   (= (c13_lt t k) (c13_lt (c06_part t i) (- k (c13_sum t (- i 1)))))) :pattern ((c13_lt t k) (c06_part t i)))))
(assert (forall ((t Tree) (s |St:github.com/wcharczuk/go-chart.Style|) (i Int) (k Int)) (! (=> (and (c06_hd t @str("System`List")) (<= 1 i) (< i (c06_len t)) (<= (c13_sum t (- i 1)) k) (< k (+ (c13_sum t (- i 1)) (c13_cnt (c06_part t i)))))
   (= (c13_ls t s k) (c13_ls (c06_part t i) (c13_sl t s (- i 1)) (- k (c13_sum t (- i 1)))))) :pattern ((c13_ls t s k) (c06_part t i)))))
; well-formed at every depth
(declare-fun c13_ok (Tree) Bool)
(declare-fun c13_okw (Tree) Int)
(assert (forall ((t Tree) (i Int)) (! (=> (and (c13_ok t) (<= 1 i) (< i (c06_len t))) (and (=> (c06_hd t @str("System`List")) (c13_ok (c06_part t i))) (=> (c06_hd t @str("System`Directive")) (c13_dok (c06_part t i))))) :pattern ((c13_ok t) (c06_part t i)))))
(assert (forall ((t Tree)) (! (=> (and (c13_ok t) (c06_hd t @str("System`Line"))) (and (= (c06_len t) 2) (c06_hd (c06_part t 1) @str("System`List")) (c13_psok (c06_part t 1)))) :pattern ((c13_ok t)))))
(assert (forall ((t Tree)) (! (let ((w (c13_okw t))) (=> (and
   (=> (c06_hd t @str("System`List")) (=> (and (<= 1 w) (< w (c06_len t))) (c13_ok (c06_part t w))))
   (=> (c06_hd t @str("System`Directive")) (=> (and (<= 1 w) (< w (c06_len t))) (c13_dok (c06_part t w))))
   (=> (c06_hd t @str("System`Line")) (and (= (c06_len t) 2) (c06_hd (c06_part t 1) @str("System`List")) (c13_psok (c06_part t 1))))) (c13_ok t))) :pattern ((c13_ok t)))))
}
smt c13_init c13_init {
(define-fun c13_init ((s |St:github.com/wcharczuk/go-chart.Style|) (c |St:github.com/wcharczuk/go-chart/drawing.Color|)) |St:github.com/wcharczuk/go-chart.Style| (|mk:github.com/wcharczuk/go-chart.Style| true (|sel:github.com/wcharczuk/go-chart.Style.Padding| s) (|sel:github.com/wcharczuk/go-chart.Style.StrokeWidth| s) c (|sel:github.com/wcharczuk/go-chart.Style.StrokeDashArray| s) (|sel:github.com/wcharczuk/go-chart.Style.DotColor| s) (|sel:github.com/wcharczuk/go-chart.Style.DotWidth| s) (|sel:github.com/wcharczuk/go-chart.Style.DotWidthProvider| s) (|sel:github.com/wcharczuk/go-chart.Style.DotColorProvider| s) (|sel:github.com/wcharczuk/go-chart.Style.FillColor| s) (|sel:github.com/wcharczuk/go-chart.Style.FontSize| s) (|sel:github.com/wcharczuk/go-chart.Style.FontColor| s) (|sel:github.com/wcharczuk/go-chart.Style.Font| s) (|sel:github.com/wcharczuk/go-chart.Style.TextHorizontalAlign| s) (|sel:github.com/wcharczuk/go-chart.Style.TextVerticalAlign| s) (|sel:github.com/wcharczuk/go-chart.Style.TextWrap| s) (|sel:github.com/wcharczuk/go-chart.Style.TextLineSpacing| s) (|sel:github.com/wcharczuk/go-chart.Style.TextRotationDegrees| s)))
}
smt c13_el c13_el {
(declare-fun c13_el ((Array Int (Array Int Int)) Slice Int) Int)
(assert (forall ((E (Array Int (Array Int Int))) (s Slice) (j Int)) (! (= (c13_el E s j) (select (select E (s_arr s)) (+ (s_off s) j))) :pattern ((c13_el E s j)))))
}
smt c13_fl c13_fl {
(declare-fun c13_fl ((Array Int F64) Int Int) F64)
(assert (forall ((A (Array Int F64)) (o Int) (j Int)) (! (= (c13_fl A o j) (select A (+ o j))) :pattern ((c13_fl A o j)))))
}

define c13_flt(x) = is(x, *atoms.Flt)
define c13_e(g,j) = c13_el(comp("E:github.com/wcharczuk/go-chart.Series"), g.Series, j).(chart.Series)
define c13_s(x) = x.(chart.ContinuousSeries)
define c13_f(s,m) = c13_fl(data(s), off(s), m)
define c13_px(t,m) = c13_x(c06_part(c06_part(t, m), 1))
define c13_py(t,m) = c13_x(c06_part(c06_part(t, m), 2))

package math/big
extern (*Float).Float32 :: x -> r, acc
  pure
  ensures r == bf_f32(x.$val)

package fmt
extern Errorf :: format, a -> r
  pure
  opt noalloc
  ensures r != nil
package errors
extern New :: text -> r
  pure
  opt noalloc
  ensures r != nil

package github.com/corywalker/expreduce/expreduce/graphics
func listToPoint :: expr -> x, y, err
  props C13
  requires wf(expr)
  pure
  ensures [accepted] err == nil <==> c13_pok(tv(expr))
  ensures [x] err == nil ==> x == c13_x(c06_part(tv(expr), 1))
  ensures [y] err == nil ==> y == c13_x(c06_part(tv(expr), 2))

func setColor :: e, color -> err
  props C13
  requires wf(e) && color != nil && c06_hd(tv(e), "System`RGBColor")
  modifies color.R, color.G, color.B
  ensures [accepted] err == nil <==> c13_dok(tv(e))
  ensures [red] err == nil ==> color.R == c13_byte(c06_part(tv(e), 1))
  ensures [green] err == nil ==> color.G == c13_byte(c06_part(tv(e), 2))
  ensures [blue] err == nil ==> color.B == c13_byte(c06_part(tv(e), 3))
  loop 1 i:int
    invariant 0 <= i && i <= 3
    invariant 0 < i ==> tkind(c06_part(tv(e), 1)) == 3 && color.R == c13_byte(c06_part(tv(e), 1))
    invariant 1 < i ==> tkind(c06_part(tv(e), 2)) == 3 && color.G == c13_byte(c06_part(tv(e), 2))
    invariant 2 < i ==> tkind(c06_part(tv(e), 3)) == 3 && color.B == c13_byte(c06_part(tv(e), 3))

func setOpacity :: e, color -> err
  props C13
  requires wf(e) && color != nil && c06_hd(tv(e), "System`Opacity")
  modifies color.A
  ensures [accepted] err == nil <==> c13_dok(tv(e))
  ensures [alpha] err == nil ==> color.A == c13_byte(c06_part(tv(e), 1))

func setDirective :: style, dir -> err
  props C13
  requires wf(dir) && style != nil
  modifies style.StrokeColor, style.StrokeWidth
  opt inline:setAbsoluteThickness
  ensures [accepted] err == nil <==> c13_dok(tv(dir))
  ensures [effect] err == nil ==> deref(style) == c13_1(tv(dir), old(deref(style)))

define c13_sty_ok(g,j,s) = is(c13_e(g,j), chart.ContinuousSeries) && c13_s(c13_e(g,j)).Style == s
define c13_len_ok(g,j,lt) = len(c13_s(c13_e(g,j)).XValues) == c06_len(c06_part(lt, 1)) - 1 && len(c13_s(c13_e(g,j)).YValues) == c06_len(c06_part(lt, 1)) - 1
define c13_al_ok(g,j) = (len(c13_s(c13_e(g,j)).XValues) == 0 || allocated(arr(c13_s(c13_e(g,j)).XValues))) && (len(c13_s(c13_e(g,j)).YValues) == 0 || allocated(arr(c13_s(c13_e(g,j)).YValues)))

func renderLine :: graph, line, style -> err
  props C13
  requires graph != nil && style != nil && wf(line) && c06_hd(tv(line), "System`Line")
  modifies graph.Series, when(cap(graph.Series) > 0, elems(graph.Series))
  ensures [accepted] err == nil <==> c13_ok(tv(line))
  ensures [store] (arr(graph.Series) == old(arr(graph.Series)) && off(graph.Series) == old(off(graph.Series)) && cap(graph.Series) == old(cap(graph.Series))) || fresh(arr(graph.Series))
  ensures [one] err == nil ==> len(graph.Series) == old(len(graph.Series)) + 1
  ensures [style] err == nil ==> c13_sty_ok(graph, old(len(graph.Series)), old(deref(style)))
  ensures [length] err == nil ==> c13_len_ok(graph, old(len(graph.Series)), tv(line))
  ensures [alloc] err == nil ==> c13_al_ok(graph, old(len(graph.Series)))
  ensures [x] err == nil ==> forall m:int :: {c13_f(c13_s(c13_e(graph, old(len(graph.Series)))).XValues, m)} 0 <= m && m < c06_len(c06_part(tv(line), 1)) - 1 ==> c13_f(c13_s(c13_e(graph, old(len(graph.Series)))).XValues, m) == c13_px(c06_part(tv(line), 1), m+1)
  ensures [y] err == nil ==> forall m:int :: {c13_f(c13_s(c13_e(graph, old(len(graph.Series)))).YValues, m)} 0 <= m && m < c06_len(c06_part(tv(line), 1)) - 1 ==> c13_f(c13_s(c13_e(graph, old(len(graph.Series)))).YValues, m) == c13_py(c06_part(tv(line), 1), m+1)
  ensures [kept] forall j:int :: {c13_e(graph, j)} 0 <= j && j < old(len(graph.Series)) ==> c13_e(graph, j) == old(c13_e(graph, j))
  loop 1 series:chart.ContinuousSeries
    invariant tv(line) == old(tv(line))
    invariant series.Style == old(deref(style))
    invariant len(series.XValues) == $k && len(series.YValues) == $k
    invariant fresh(arr(series.XValues)) || cap(series.XValues) == 0
    invariant fresh(arr(series.YValues)) || cap(series.YValues) == 0
    invariant (cap(series.XValues) == 0 || allocated(arr(series.XValues))) && (cap(series.YValues) == 0 || allocated(arr(series.YValues)))
    invariant cap(series.XValues) == 0 || cap(series.YValues) == 0 || arr(series.XValues) != arr(series.YValues)
    invariant forall m:int :: {c06_part(c06_part(tv(line), 1), m)} 1 <= m && m <= $k ==> c13_pok(c06_part(c06_part(tv(line), 1), m))
    invariant forall m:int :: {c06_part(c06_part(tv(line), 1), m)} 1 <= m && m <= $k ==> c13_f(series.XValues, m-1) == c13_px(c06_part(tv(line), 1), m)
    invariant forall m:int :: {c06_part(c06_part(tv(line), 1), m)} 1 <= m && m <= $k ==> c13_f(series.YValues, m-1) == c13_py(c06_part(tv(line), 1), m)

func renderPrimitive :: graph, p, style -> err
  props C13
  requires graph != nil && style != nil && wf(p)
  modifies graph.Series, when(cap(graph.Series) > 0, elems(graph.Series)), style.StrokeColor, style.StrokeWidth
  ensures [accepted] err == nil <==> c13_ok(tv(p))
  ensures [scope] err == nil ==> deref(style) == c13_sty(tv(p), old(deref(style)))
  ensures [store] (arr(graph.Series) == old(arr(graph.Series)) && off(graph.Series) == old(off(graph.Series)) && cap(graph.Series) == old(cap(graph.Series))) || fresh(arr(graph.Series))
  ensures [count] err == nil ==> len(graph.Series) == old(len(graph.Series)) + c13_cnt(tv(p))
  ensures [kept] forall j:int :: {c13_e(graph, j)} 0 <= j && j < old(len(graph.Series)) ==> c13_e(graph, j) == old(c13_e(graph, j))
  ensures [style] err == nil ==> forall j:int :: {c13_e(graph, j)} old(len(graph.Series)) <= j && j < len(graph.Series) ==> c13_sty_ok(graph, j, c13_ls(tv(p), old(deref(style)), j - old(len(graph.Series))))
  ensures [length] err == nil ==> forall j:int :: {c13_e(graph, j)} old(len(graph.Series)) <= j && j < len(graph.Series) ==> c13_len_ok(graph, j, c13_lt(tv(p), j - old(len(graph.Series))))
  ensures [alloc] err == nil ==> forall j:int :: {c13_e(graph, j)} old(len(graph.Series)) <= j && j < len(graph.Series) ==> c13_al_ok(graph, j)
  ensures [x] err == nil ==> forall j:int, m:int :: {c13_f(c13_s(c13_e(graph, j)).XValues, m)} old(len(graph.Series)) <= j && j < len(graph.Series) && 0 <= m && m < len(c13_s(c13_e(graph, j)).XValues) ==> c13_f(c13_s(c13_e(graph, j)).XValues, m) == c13_px(c06_part(c13_lt(tv(p), j - old(len(graph.Series))), 1), m+1)
  ensures [y] err == nil ==> forall j:int, m:int :: {c13_f(c13_s(c13_e(graph, j)).YValues, m)} old(len(graph.Series)) <= j && j < len(graph.Series) && 0 <= m && m < len(c13_s(c13_e(graph, j)).YValues) ==> c13_f(c13_s(c13_e(graph, j)).YValues, m) == c13_py(c06_part(c13_lt(tv(p), j - old(len(graph.Series))), 1), m+1)
  loop 1 newStyle:*chart.Style
    invariant tv(p) == old(tv(p))
    invariant deref(newStyle) == c13_sl(tv(p), old(deref(style)), $k)
    invariant deref(style) == old(deref(style))
    invariant (arr(graph.Series) == old(arr(graph.Series)) && off(graph.Series) == old(off(graph.Series)) && cap(graph.Series) == old(cap(graph.Series))) || fresh(arr(graph.Series))
    invariant len(graph.Series) == old(len(graph.Series)) + c13_sum(tv(p), $k)
    invariant forall i:int :: {c06_part(tv(p), i)} 1 <= i && i <= $k ==> c13_ok(c06_part(tv(p), i))
    invariant forall j:int :: {c13_e(graph, j)} 0 <= j && j < old(len(graph.Series)) ==> c13_e(graph, j) == old(c13_e(graph, j))
    invariant forall j:int :: {c13_e(graph, j)} old(len(graph.Series)) <= j && j < len(graph.Series) ==> c13_sty_ok(graph, j, c13_ls(tv(p), old(deref(style)), j - old(len(graph.Series))))
    invariant forall j:int :: {c13_e(graph, j)} old(len(graph.Series)) <= j && j < len(graph.Series) ==> c13_len_ok(graph, j, c13_lt(tv(p), j - old(len(graph.Series))))
    invariant forall j:int :: {c13_e(graph, j)} old(len(graph.Series)) <= j && j < len(graph.Series) ==> c13_al_ok(graph, j)
    invariant forall j:int, m:int :: {c13_f(c13_s(c13_e(graph, j)).XValues, m)} old(len(graph.Series)) <= j && j < len(graph.Series) && 0 <= m && m < len(c13_s(c13_e(graph, j)).XValues) ==> c13_f(c13_s(c13_e(graph, j)).XValues, m) == c13_px(c06_part(c13_lt(tv(p), j - old(len(graph.Series))), 1), m+1)
    invariant forall j:int, m:int :: {c13_f(c13_s(c13_e(graph, j)).YValues, m)} old(len(graph.Series)) <= j && j < len(graph.Series) && 0 <= m && m < len(c13_s(c13_e(graph, j)).YValues) ==> c13_f(c13_s(c13_e(graph, j)).YValues, m) == c13_py(c06_part(c13_lt(tv(p), j - old(len(graph.Series))), 1), m+1)
  loop 2
    invariant tv(p) == old(tv(p))
    invariant deref(style) == c13_ds(tv(p), old(deref(style)), $k)
    invariant forall i:int :: {c06_part(tv(p), i)} 1 <= i && i <= $k ==> c13_dok(c06_part(tv(p), i))

func Render :: e -> g, err
  props C13
  requires wf(e)
  pure
  ensures [accepted] err == nil <==> c06_hd(tv(e), "System`Graphics") && c06_len(tv(e)) >= 2 && c13_ok(c06_part(tv(e), 1))
  ensures [count] err == nil ==> len(g.Series) == c13_cnt(c06_part(tv(e), 1))
  ensures [style] err == nil ==> forall j:int :: {c13_e(g, j)} 0 <= j && j < len(g.Series) ==> c13_sty_ok(g, j, c13_ls(c06_part(tv(e), 1), c13_init(zero("chart.Style"), drawing.ColorBlack), j))
  ensures [length] err == nil ==> forall j:int :: {c13_e(g, j)} 0 <= j && j < len(g.Series) ==> c13_len_ok(g, j, c13_lt(c06_part(tv(e), 1), j))
  ensures [alloc] err == nil ==> forall j:int :: {c13_e(g, j)} 0 <= j && j < len(g.Series) ==> c13_al_ok(g, j)
  ensures [x] err == nil ==> forall j:int, m:int :: {c13_f(c13_s(c13_e(g, j)).XValues, m)} 0 <= j && j < len(g.Series) && 0 <= m && m < len(c13_s(c13_e(g, j)).XValues) ==> c13_f(c13_s(c13_e(g, j)).XValues, m) == c13_px(c06_part(c13_lt(c06_part(tv(e), 1), j), 1), m+1)
  ensures [y] err == nil ==> forall j:int, m:int :: {c13_f(c13_s(c13_e(g, j)).YValues, m)} 0 <= j && j < len(g.Series) && 0 <= m && m < len(c13_s(c13_e(g, j)).YValues) ==> c13_f(c13_s(c13_e(g, j)).YValues, m) == c13_py(c06_part(c13_lt(c06_part(tv(e), 1), j), 1), m+1)

