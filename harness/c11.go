package main

import (
	"encoding/json"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/wI2L/jettison"
	"verifharness/sym"
)

const minSec = -62167219200 // 0000-01-01T00:00:00Z

// symTime is the instant sec+nsec seconds after the Unix epoch in a zone off seconds east of UTC.
func symTime(sec, nsec int64, off int) time.Time {
	return time.Unix(sec, nsec).In(time.FixedZone("zone", off))
}

var allMonths, edgeMonths = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, []int{0, 11}

// symDate is the number of days from 0000-01-01 to any day of the given months (from 0) of the years 0 to 9999.
func symDate(months []int) int64 {
	e, c, i, m := sym.Upto("era", 25), int64(sym.Choose("century", 4)), int64(sym.Choose("year", 4)), months[sym.Choose("month", len(months))]
	b := int64(0)
	if sym.Choose("first", 2) == 1 {
		b = sym.Upto("block", 24) + 1
	}
	lead := b > 0 || c == 0 // the first year of the block is a leap year
	days := []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if i == 0 && lead {
		days[1] = 29
	}
	n := e*146097 + c*36524 + b*1461 + i*365
	if c > 0 {
		n++
		if b > 0 {
			n--
		}
	}
	if i > 0 && lead {
		n++
	}
	for k := 0; k < m; k++ {
		n += days[k]
	}
	return n + sym.Upto("day", days[m])
}

// symZone is any zone offset within 24 hours.
func symZone() int {
	switch sym.Choose("zone", 3) {
	case 1:
		return int(sym.Upto("east", 86399)) + 1
	case 2:
		return -int(sym.Upto("west", 86399) + 1)
	}
	return 0
}

// symNano is any number of nanoseconds below a second.
func symNano() int64 { return sym.Upto("nsec", 1e9) }

// fmtTime checks t in the layout number l against time.Format.
func fmtTime(t time.Time, l int) {
	switch l {
	case 0:
		is("default", `"`+t.Format(time.RFC3339Nano)+`"`, t)
	case 1:
		is("RFC3339", `"`+t.Format(time.RFC3339)+`"`, t, jettison.TimeLayout(time.RFC3339))
	case 2:
		is("RFC3339Nano", `"`+t.Format(time.RFC3339Nano)+`"`, t, jettison.TimeLayout(time.RFC3339Nano))
	}
}

// Q_C11_date: all the days of the years 0 to 9999 (thorough tier: in the three RFC 3339 layouts).
func Q_C11_date() {
	l := 0
	if sym.Thorough() {
		l = sym.Choose("layout", 3)
	}
	fmtTime(symTime(minSec+symDate(allMonths)*86400+46923, 0, 0), l)
	sym.Reach("end")
}

// a few days around the ends of the range and the leap years
var someDays = []int64{0, 59, 60, 146096, 719162, 730179, 730544, 738734, 3652424}

// Q_C11_clock: all the seconds of a day and all the zone offsets below 24 hours, in the three RFC 3339 layouts, for
// nine dates.
func Q_C11_clock() {
	off := symZone()
	d := someDays[sym.Choose("date", len(someDays))]
	fmtTime(symTime(minSec+d*86400+sym.Upto("tod", 86400)-int64(off), 0, off), sym.Choose("layout", 3))
	sym.Reach("end")
}

// Q_C11_frac: all the nanoseconds of a second and all the zone offsets, in the three RFC 3339 layouts.
func Q_C11_frac() {
	off := symZone()
	fmtTime(symTime(1700000000-int64(off), symNano(), off), sym.Choose("layout", 3))
	sym.Reach("end")
}

// Q_C11_fracs: all the nanoseconds of the first and last second of 7 minutes, from the year 0 to the year 9999, near the epochs of
// Unix time and of Go, in three zones, in the RFC 3339 layouts with a fraction and as part of a list.
func Q_C11_fracs() {
	at := []int64{minSec, minSec + 86400*366, -62135596800, -86400, -60, 0, 253402300740}[sym.Choose("minute", 7)]
	at += []int64{0, 59}[sym.Choose("second", 2)]
	off := []int{0, -45, 20700}[sym.Choose("zone", 3)]
	t := symTime(at-int64(off), symNano(), off)
	if sym.Choose("layout", 2) == 1 {
		fmtTime(t, 2)
	} else {
		q := `"` + t.Format(time.RFC3339Nano) + `"`
		is("list", `[`+q+`,"`+t.Format("2006")+`-01-01T00:00:00Z"]`, []time.Time{t, time.Date(t.Year(), 1, 1, 0, 0, 0, 0, time.UTC)})
	}
	sym.Reach("end")
}

// Q_C11_mono: times that carry a monotonic clock reading (years 1885 to 2157), in UTC.
func Q_C11_mono() {
	var t time.Time
	day := sym.Upto("day", 365)
	sec := uint64((36524+50*365)*86400 + day*86400 + sym.Upto("tod", 86400))
	*(*[2]uint64)(unsafe.Pointer(&t)) = [2]uint64{1<<63 | sec<<30 | 123456000, sym.U64("mono")}
	fmtTime(t, 0)
	is("unix", strconv.FormatInt(t.Unix(), 10), t, jettison.UnixTime())
	sym.Reach("end")
}

// outOfRange checks that t, whose local year is not in [0,9999], is an error.
func outOfRange(t time.Time) {
	var v interface{}
	var o jettison.Option
	switch sym.Choose("how", 4) {
	case 0:
		v, o = t, jettison.UnixTime()
	case 1:
		v, o = &t, jettison.TimeLayout(time.RFC3339)
	case 2:
		v, o = []time.Time{t}, jettison.TimeLayout(time.Kitchen)
	case 3:
		v, o = struct{ T time.Time }{t}, jettison.TimeLayout(time.RFC3339Nano)
	}
	_, err := json.Marshal(v)
	sym.Assert("encoding/json", err != nil)
	got, err := jettison.Marshal(v)
	sym.Assert("default", err != nil && got == nil)
	got, err = jettison.MarshalOpts(v, o)
	sym.Assert("options", err != nil && got == nil)
	sym.Reach("end")
}

// Q_C11_range: local years outside of [0,9999] are an error, whatever the layout and the position: all the seconds of
// the years -2, -1, 10000 and 10001 in any zone.
func Q_C11_range() {
	off := symZone()
	y := []int64{-731, -365, 3652425, 3652425 + 366}[sym.Choose("year", 4)]
	outOfRange(symTime(minSec+y*86400+sym.Upto("second", 365*86400)-int64(off), 0, off))
}

// T_C11_range: the same for all the days of January and December of the years -10000 to -1 and 10000 to 19999.
func T_C11_range() {
	off, d := symZone(), symDate(edgeMonths)
	if sym.Choose("side", 2) == 1 {
		d += 3652425
	} else {
		d -= 3652425
	}
	outOfRange(symTime(minSec+d*86400+sym.Upto("tod", 86400)-int64(off), 0, off))
}

func unixSeconds(t time.Time) {
	want := strconv.FormatInt(t.Unix(), 10)
	switch sym.Choose("options", 3) {
	case 0:
		is("unix", want, t, jettison.UnixTime())
	case 1:
		is("unix, layout", want, t, jettison.UnixTime(), jettison.TimeLayout(time.RFC822))
	case 2:
		is("layout, unix", want, t, jettison.TimeLayout(time.RFC822), jettison.UnixTime())
	}
	sym.Reach("end")
}

// Q_C11_unix: UnixTime gives the Unix seconds of the instant in any zone, and wins over TimeLayout in either order: all
// the seconds of the years 0, 1, 1583, 1969, 1970, 2023, 2262 and 9999.
func Q_C11_unix() {
	off := symZone()
	d := []int64{0, 366, 578179, 719163, 719528, 738886, 826177, 3652060}[sym.Choose("year", 8)]
	unixSeconds(symTime(minSec+d*86400+sym.Upto("second", 365*86400)-int64(off), 5, off))
}

// T_C11_unix: the same for all the days of January and December of the years 0 to 9999.
func T_C11_unix() {
	off, d := symZone(), symDate(edgeMonths)
	unixSeconds(symTime(minSec+d*86400+sym.Upto("tod", 86400)-int64(off), 5, off))
}

// Q_C11_layout: other layouts give the JSON string of what time.Format returns, for all the days of four months and
// all the seconds of a day: standard layouts, and layouts and zone names with characters that need escaping.
func Q_C11_layout() {
	ls := []string{time.ANSIC, time.RFC1123Z, time.Kitchen, time.StampNano, time.RFC850, "2006-01-02", "\"2006\\01\n<_2>", "Jan \xff \u2028 & MST", "plain"}
	l := ls[sym.Choose("layout", len(ls))]
	base := []int64{11016, 19782, -141428, 2932867}[sym.Choose("month", 4)] // Feb 2000, Mar 2024, Oct 1582, Dec 9999
	n, tod := sym.Upto("day", 29), int64(3723)
	if sym.Choose("clock", 2) == 1 {
		n, tod = 3, sym.Upto("tod", 86400)
	}
	t := time.Unix((base+n)*86400+tod+19800, 120000000).In(time.FixedZone(`A"<\`, -19800))
	s := t.Format(l)
	want, _ := json.Marshal(s)
	is("layout", string(want), t, jettison.TimeLayout(l))
	sym.Reach("end")
}

// Q_C11_layouts: all the standard layouts, and layouts alike them (prefixes, suffixes, other fractions, separators and zone
// forms), up to results of 1400 bytes: what time.Format returns, for all the seconds of three minutes of a day,
// fractions of 0 to 9 digits and three zones.
func Q_C11_layouts() {
	ls := []string{time.ANSIC, time.UnixDate, time.RubyDate, time.RFC822, time.RFC822Z, time.RFC850, time.RFC1123, time.RFC1123Z,
		time.RFC3339, time.RFC3339Nano, time.Kitchen, time.Stamp, time.StampMilli, time.StampMicro, time.StampNano,
		"2006-01-02 15:04:05", "2006-01-02", "15:04:05",
		"2006-01-02T15:04:05.000Z07:00", "2006-01-02T15:04:05.000000Z07:00", "2006-01-02T15:04:05.000000000Z07:00",
		"2006-01-02T15:04:05.999Z07:00", "2006-01-02T15:04:05,999999999Z07:00", "2006-01-02T15:04:05.99999999Z07:00",
		"2006-01-02T15:04:05", "2006-01-02T15:04:05.999999999", "2006-01-02T15:04:05Z", "2006-01-02T15:04:05-07:00",
		"2006-01-02T15:04:05.999999999-07:00", "2006-01-02T15:04:05Z0700", "2006-01-02T15:04:05Z07", "2006-01-02T15:04:05Z07:00:00",
		"2006-01-02 15:04:05Z07:00", "2006-1-2T15:04:05Z07:00", "06-01-02T15:04:05Z07:00", "2006-01-02T03:04:05Z07:00",
		"2006-01-02T15:04:05Z07:00 MST", " 2006-01-02T15:04:05Z07:00", "2006-01-02T15:04:05Z07:00 ", "x2006-01-02T15:04:05.999999999Z07:00",
		"2006-02-01T15:04:05Z07:00", "2006-002T15:04:05Z07:00", "2006-__2 _2 January Mon 3 4 5 PM pm", "2006-01-02t15:04:05z07:00",
		strings.Repeat("2006-01-02T15:04:05 ", 4), strings.Repeat("January ", 16), strings.Repeat("<15:04:05>", 60) + "5", strings.Repeat("0102", 350),
		"2006\"01", "15\\04", "01<02", "02\n01", "\"2006\"", "<", "01/02 03:04:05PM '06 -0700", "15\x0004", "2006\xff01", "\x7f5\u20291"}
	l := ls[sym.Choose("layout", len(ls))]
	nsec := []int64{0, 123456789, 120000000, 1000}[sym.Choose("fraction", 4)]
	off := []int{0, -19800, 3600}[sym.Choose("zone", 3)]
	t := symTime(1709600461-1709600461%86400+[]int64{0, 45240, 86340}[sym.Choose("minute", 3)]+sym.Upto("second", 60), nsec, off)
	want, _ := json.Marshal(t.Format(l))
	is("layout", string(want), t, jettison.TimeLayout(l))
	is("in a field", `{"T":`+string(want)+`,"M":{"k":`+string(want)+`}}`, struct {
		T *time.Time
		M map[string]time.Time
	}{&t, map[string]time.Time{"k": t}}, jettison.TimeLayout(l))
	sym.Reach("end")
}

type (
	embTime   struct{ time.Time }
	namedTime time.Time
)

// Q_C11_positions: times behind pointers and interfaces, in fields, slices, arrays, maps, embedded and with omitempty,
// for all the seconds of a day in a negative zone.
func Q_C11_positions() {
	t := symTime(1700006400+sym.Upto("tod", 86400)+3600, 0, -3600)
	q := `"` + t.Format(time.RFC3339Nano) + `"`
	is("positions", `{"A":`+q+`,"B":`+q+`,"C":`+q+`,"D":[`+q+`],"E":[`+q+`,`+q+`],"F":{"k":`+q+`},"G":`+q+`,"H":null,"I":`+q+`,"J":{}}`, struct {
		A time.Time
		B *time.Time
		C interface{}
		D []time.Time
		E [2]time.Time
		F map[string]time.Time
		G time.Time `json:",omitempty"`
		H *time.Time
		I embTime
		J namedTime
	}{t, &t, t, []time.Time{t}, [2]time.Time{t, t}, map[string]time.Time{"k": t}, t, nil, embTime{t}, namedTime(t)})
	is("pointer", q, &t)
	is("zero", `"0001-01-01T00:00:00Z"`, time.Time{})
	sym.Reach("end")
}

// T_C11_all: all dates, time of day, fraction and zones together, in the default layout.
func T_C11_all() {
	d := symDate(allMonths)
	off := symZone()
	fmtTime(symTime(minSec+d*86400+sym.Upto("tod", 86400)-int64(off), symNano(), off), 0)
	sym.Reach("end")
}

// The memory of a time.Location.
type (
	locZone struct {
		name   string
		offset int
		isDST  bool
	}
	locTrans struct {
		when         int64
		index        uint8
		isstd, isutc bool
	}
	locMem struct {
		name       string
		zone       []locZone
		tx         []locTrans
		extend     string
		start, end int64
		cache      *locZone
	}
)

// place is a location whose offset was -4:10 before 2020-01-01, then 5:45, 6:45 from 2020-07-01 and 5:45 again from 2021-01-01.
func place() *time.Location {
	m := &locMem{name: "Some/Place", zone: []locZone{{"OLD", -15000, false}, {"STD", 20700, false}, {"DST", 24300, true}},
		tx: []locTrans{{-1 << 63, 0, false, false}, {1577836800, 1, false, false}, {1593561600, 2, false, false}, {1609459200, 1, false, false}}}
	m.start, m.end, m.cache = 1593561600, 1609459200, &m.zone[2]
	return (*time.Location)(unsafe.Pointer(m))
}

// Q_C11_zones: times of a location whose offset changes, in the local day of each change, before and after it: all the seconds;
// between two times on the other side of the change, in the RFC 3339 layouts and another.
func Q_C11_zones() {
	loc := place()
	at := []int64{1577836800, 1593561600, 1609459200}[sym.Choose("change", 3)]
	after := sym.Choose("after", 2)
	t, u := time.Unix(at-1, 7).In(loc), time.Unix(at, 5).In(loc)
	_, off := t.Zone()
	n, from := int64(off), at-int64(off)
	if off < 0 {
		n, from = 86400+int64(off), at-86400-int64(off)
	}
	if after == 1 {
		u, t = t, u
		_, off := t.Zone()
		n, from = 86400, at-int64(off)
	}
	x := from + sym.Upto("second", n)
	sym.Assume(after == 0 || x >= at)
	t = time.Unix(x, 0).In(loc)
	var o []jettison.Option
	f := time.RFC3339Nano
	switch sym.Choose("layout", 3) {
	case 1:
		f = time.RFC3339
		o = append(o, jettison.TimeLayout(f))
	case 2:
		f = "MST 2006-01-02 15:04:05"
		o = append(o, jettison.TimeLayout(f))
	}
	is("times", `["`+u.Format(f)+`","`+t.Format(f)+`","`+u.Format(f)+`"]`, []time.Time{u, t, u}, o...)
}
