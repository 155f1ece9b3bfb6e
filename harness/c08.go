//go:build go1.21

package gotables

import "math"

// Generic binary search.

// any monotone predicate over 0..n-1 is "index >= threshold" (first) or "index < threshold" (last)
func vzC08_first() {
	n := vzRange("n", 0, 9+8*vzTier())
	th := vzInt("threshold")
	vzAssume(vzAnd(0 <= th, th <= n))
	got := SearchFirst(n, func(i int) bool {
		vzAssert(0 <= i && i < n, "the predicate is called with valid indices only")
		return i >= th
	})
	vzAssert(got == th, "smallest index where the predicate holds, or the length")
	vzReach("end")
}

func vzC08_last() {
	n := vzRange("n", 0, 9+8*vzTier())
	th := vzInt("threshold")
	vzAssume(vzAnd(-1 <= th, th < n))
	got := SearchLast(n, func(i int) bool {
		vzAssert(0 <= i && i < n, "the predicate is called with valid indices only")
		return i <= th
	})
	vzAssert(got == th, "largest index where the predicate holds, or -1")
	vzReach("end")
}

// arbitrary length up to the largest integer: the first probes stay in range
func vzC08big(last bool) {
	n, th := vzInt("n"), vzInt("threshold")
	vzAssume(vzAnd(n >= 1, vzAnd(0 <= th, th < n)))
	steps := 0
	p := func(i int) bool {
		vzAssert(vzAnd(0 <= i, i < n), "the predicate is called with valid indices only")
		steps++
		if steps > 3+2*vzTier() {
			vzReach("probes")
			vzAssume(false) // bound: the first probes
		}
		if last {
			return i <= th
		}
		return i >= th
	}
	if last {
		vzAssert(SearchLast(n, p) == th, "largest index where the predicate holds")
	} else {
		vzAssert(SearchFirst(n, p) == th, "smallest index where the predicate holds")
	}
}

func vzC08_firstBig() { vzC08big(false) }
func vzC08_lastBig()  { vzC08big(true) }

// the largest lengths, the whole loop, thresholds near the ends and the middle
func vzC08huge(last bool) {
	n := []int{math.MaxInt, math.MaxInt - 1, math.MaxInt - 2, 1 << 62, 1<<62 + 1, 1<<62 - 1, 1 << 40}[vzRange("n", 0, 6)]
	k := vzRange("k", 0, 3)
	th := []int{k, n - 1 - k, n/2 - k}[vzRange("where", 0, 2)]
	if last {
		vzAssert(SearchLast(n, func(i int) bool {
			vzAssert(0 <= i && i < n, "the predicate is called with valid indices only")
			return i <= th
		}) == th, "largest index where the predicate holds")
		vzAssert(SearchLast(n, func(i int) bool { return false }) == -1, "-1 when the predicate never holds")
	} else {
		vzAssert(SearchFirst(n, func(i int) bool {
			vzAssert(0 <= i && i < n, "the predicate is called with valid indices only")
			return i >= th
		}) == th, "smallest index where the predicate holds")
		vzAssert(SearchFirst(n, func(i int) bool { return false }) == n, "the length when the predicate never holds")
	}
	vzReach("end")
}

func vzC08_firstHuge() { vzC08huge(false) }
func vzC08_lastHuge()  { vzC08huge(true) }

// the two searches meet: over any sorted data they bracket exactly the equal run
func vzC08_bracket() {
	n := vzRange("n", 0, 4+vzTier())
	d := make([]int16, n)
	for i := range d {
		d[i] = vzInt16("d")
		if i > 0 {
			vzAssume(d[i-1] <= d[i])
		}
	}
	x := vzInt16("x")
	f := SearchFirst(n, func(i int) bool { return d[i] >= x })
	l := SearchLast(n, func(i int) bool { return d[i] <= x })
	for i := range d {
		vzAssert((d[i] == x) == (f <= i && i <= l), "first and last bracket exactly the equal run")
	}
	vzAssert(l >= f-1, "an absent value has an empty bracket")
	vzReach("end")
}
