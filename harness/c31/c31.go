// Package c31: durations.
//
// bound: every 64-bit duration for Std; String for every number of days from 1 to 106750 (all there are) with 7 different rests, for 0..199 (thorough 0..86399) whole seconds and 0..1999 (thorough 0..999999) nanoseconds from 3 (6) starting points, for as many negative seconds from 3 starting points, and for 15 durations around the limits; the numbers of days, hours... for every 64-bit duration; ParseDuration for 12 texts and every text of up to 3 (thorough 4) bytes
package c31

import (
	"fmt"
	"math"
	"time"

	gx "github.com/vipally/gx/time"

	"verif/sym"
)

func eq(a, b string) bool { return sym.EqBytes([]byte(a), []byte(b)) }

const day = int64(24 * time.Hour)

// CheckConsts: the units.
func CheckConsts() {
	n := sym.Int64("n")
	d := gx.Duration(n)
	sym.Assert(int64(d.Std()) == n, "Std keeps the value")
	sym.Assert(int64(gx.Day) == day && int64(gx.Week) == 7*day, "Day is 24 hours and Week 7 days")
	sym.Assert(gx.Nanosecond.Std() == time.Nanosecond && gx.Microsecond.Std() == time.Microsecond && gx.Millisecond.Std() == time.Millisecond &&
		gx.Second.Std() == time.Second && gx.Minute.Std() == time.Minute && gx.Hour.Std() == time.Hour, "the units are the standard ones")
	sym.Cover("done")
}

// CheckFloat: the same numbers as the standard library.
func CheckFloat() {
	n := []int64{0, 1, -1, 999, 1e9, -1e9, 3600e9, day - 1, day, day + 1, -day, 7 * day, 1<<53 + 1, math.MaxInt64, math.MinInt64}[sym.Choice("n", 15)]
	d, s := gx.Duration(n), time.Duration(n)
	sym.Assert(d.Seconds() == s.Seconds() && d.Minutes() == s.Minutes() && d.Hours() == s.Hours(), "Seconds, Minutes and Hours are the standard ones")
	sym.Assert(d.Days() == float64(n)/float64(day), "Days is the number of days")
	sym.Assert(d.Weeks() == float64(n)/float64(7*day), "Weeks is the number of weeks")
	sym.Cover("done")
}

func want(n int64) string {
	if n < day {
		return time.Duration(n).String()
	}
	return fmt.Sprintf("%dd%s", n/day, time.Duration(n%day))
}

// CheckManyDays: any number of days, with some rests.
func CheckManyDays() {
	k := int64(sym.IntRange("days", 1, 106750))
	c := []int64{0, 1, 59e9, 60e9, 3600e9 + 1, 12*3600e9 + 61e9 + 5e6, day - 1}[sym.Choice("rest", 7)]
	n := k*day + c
	sym.Assert(eq(gx.Duration(n).String(), want(n)), "String counts the days and leaves the rest to the standard library")
	sym.Cover("done")
}

// CheckSeconds: seconds over some days.
func CheckSeconds() {
	k := []int64{0, day - 60e9, day, 2*day - 60e9, 30 * day, 100 * day}[sym.Choice("k", sym.Bound(3, 6))]
	t := int64(sym.IntRange("t", 0, sym.Bound(200, 86400)-1))
	n := k + t*int64(time.Second)
	sym.Assert(eq(gx.Duration(n).String(), want(n)), "String counts the days and leaves the rest to the standard library")
	sym.Cover("done")
}

// CheckFraction: below a second.
func CheckFraction() {
	k := []int64{0, day - 1e9, day, 2*day - 1e9, 400 * day}[sym.Choice("k", sym.Bound(3, 5))]
	t := int64(sym.IntRange("t", 0, sym.Bound(2000, 1000000)-1))
	n := k + t
	sym.Assert(eq(gx.Duration(n).String(), want(n)), "String counts the days and leaves the rest to the standard library")
	sym.Cover("done")
}

// CheckNegative: below zero it is the standard string.
func CheckNegative() {
	t := int64(sym.IntRange("t", 1-sym.Bound(200, 86400), -1))
	n := t*int64(time.Second) - []int64{0, day - 30e9, 5 * day}[sym.Choice("k", 3)]
	sym.Assert(eq(gx.Duration(n).String(), want(n)), "String of a negative duration is the standard one")
	sym.Cover("done")
}

// CheckEdges: around the limits.
func CheckEdges() {
	n := []int64{0, 1, -1, day - 1, day, day + 1, 2*day - 1, 2 * day, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, -day, -day - 1, math.MaxInt64 / day * day}[sym.Choice("n", 15)]
	sym.Assert(eq(gx.Duration(n).String(), want(n)), "String counts the days and leaves the rest to the standard library")
	sym.Cover("done")
}

// CheckParse: ParseDuration is the standard one.
func CheckParse() {
	t := []string{"0", "1h", "-1.5h", "2h45m", "300ms", "1d", "", "25h1m0s", "x", "9223372036854775807ns", "9223372036854775808ns", "1"}[sym.Choice("t", 12)]
	a, e1 := gx.ParseDuration(t)
	b, e2 := time.ParseDuration(t)
	sym.Assert(a.Std() == b && (e1 == nil) == (e2 == nil), "ParseDuration is the standard one")
	sym.Cover("done")
}

// CheckTexts: any short text.
func CheckTexts() {
	t := sym.String("t", sym.Choice("len", sym.Bound(4, 5)))
	a, e1 := gx.ParseDuration(t)
	b, e2 := time.ParseDuration(t)
	sym.Assert((e1 == nil) == (e2 == nil), "ParseDuration accepts what the standard one accepts")
	if e1 == nil {
		sym.Assert(a.Std() == b, "ParseDuration is the standard one")
	}
	sym.Cover("done")
}

// CheckAllFloat: the same numbers, for every duration.
func CheckAllFloat() {
	n := sym.Int64("n")
	d, s := gx.Duration(n), time.Duration(n)
	switch sym.Choice("unit", 5) {
	case 0:
		sym.Assert(d.Seconds() == s.Seconds(), "Seconds is the standard one")
	case 1:
		sym.Assert(d.Minutes() == s.Minutes(), "Minutes is the standard one")
	case 2:
		sym.Assert(d.Hours() == s.Hours(), "Hours is the standard one")
	case 3:
		sym.Assert(d.Days() == float64(n)/float64(day), "Days is the number of days")
	case 4:
		sym.Assert(d.Weeks() == float64(n)/float64(7*day), "Weeks is the number of weeks")
	}
	sym.Cover("done")
}
