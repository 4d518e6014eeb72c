package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// lexical forms of each built-in type; the first one is the usual value. All
// of them can be represented by the Go type.
var lexical = func() map[string][]string {
	m := map[string][]string{}
	put := func(names string, v ...string) {
		for _, n := range strings.Fields(names) {
			m[n] = v
		}
	}
	put("anyType anySimpleType string", "text", "", " a  b ", strings.Repeat("long & ", 800), "a&b<c>d\"e'f", "é数\U0001F600", "\n\tx", "0", "-", "{}%d")
	put("normalizedString", "a b", "", " x ", "0")
	put("token", "a b", "x", "  padded\n", "é")
	put("Name NCName ID IDREF ENTITY NMTOKEN NOTATION", "ab", "_x-1.y", "é", " padded ")
	put("ENTITIES IDREFS NMTOKENS", "ab cd", "ab", " ab\n\tcd  ef ")
	put("language", "en-US", "de")
	put("anyURI", "http://x/?a=1&b=%20#f", "", "urn:é", " urn:x ")
	put("boolean", "true", "1", "false", "0", " true\n")
	put("byte", "1", "-128", "127", "0", "+5", "007", " 12\n")
	put("unsignedByte", "1", "255", "0", "007", " 12\n")
	put("short", "1", "-32768", "32767", "0", "+5", "-0", " 12\n")
	put("unsignedShort", "1", "65535", "0", "007", " 12\n")
	put("int integer", "1", "-2147483648", "2147483647", "0", "+5", "-0", "0012", " 12\n")
	put("unsignedInt", "1", "4294967295", "0", "007", " 12\n")
	put("long", "1", "-9223372036854775808", "9223372036854775807", "0", "+5", " 12\n")
	put("unsignedLong", "1", "18446744073709551615", "0", " 12\n")
	put("nonNegativeInteger", "1", "0", "2147483647", "+5", "-0")
	put("positiveInteger", "1", "2147483647", "+5", " 7 ")
	put("nonPositiveInteger", "-1", "0", "-2147483648", "-0")
	put("negativeInteger", "-1", "-2147483648", " -7 ")
	put("decimal", "1.5", "-0.25", "+3", "100", "0", " .5 ", "5.", "123456.789", "0.0001", "999999")
	put("double", "1.5", "1e3", "-1.25E-2", "0", "1.7976931348623157e308", "4.9E-324", " 2 ")
	put("float", "1.5", "1e3", "-1.25E-2", "0", "16777216", "3.4028235e38", " 2 ")
	put("duration", "P1D", "-P1Y2M3DT4H5M6.7S", "PT0S", " P1M ")
	put("dateTime", "2001-10-26T21:32:52", "2001-10-26T21:32:52Z", "2001-10-26T21:32:52.126789+02:30", "2000-02-29T00:00:00-14:00", "9999-12-31T23:59:59.999999999Z", " 2001-10-26T21:32:52.5\n")
	put("date", "2001-10-26", "2001-10-26Z", "2000-02-29+13:00", "0002-01-01", "9999-12-31-01:30", " 2001-01-31\n")
	put("time", "21:32:52", "00:00:00", "21:32:52.126789Z", "23:59:59.999999999+02:00", " 01:02:03-05:30\n")
	put("gYear", "2001", "2001Z", "1999-05:00", "9999", " 0100\n")
	put("gYearMonth", "2001-10", "2001-02Z", "1999-12+01:00", " 0100-01\n")
	put("gMonth", "--05", "--12Z", "--01+01:00", " --11\n")
	put("gMonthDay", "--11-01", "--02-29", "--12-31Z", "--01-31-04:00", " --02-28\n")
	put("gDay", "---01", "---31", "---15Z", "---28+02:00", " ---09\n")
	put("hexBinary", "0fb7", strings.Repeat("5AfE", 1500), "0FB7", "", "00", " ab\n")
	put("base64Binary", "AQID", strings.Repeat(strings.Repeat("+/9a", 19)+"\n", 40)+"AQ==", "", "AA==", "AQI=", " AQ ID\n", "/+/+")
	return m
}()

// value is a value in the value space of a built-in type.
type value struct {
	text string
	zero bool // it is the zero value of its Go type
}

// canon maps a lexical form to its value. Parsing follows XML Schema, part 2.
func canon(b, s string) (v value, err error) {
	switch b {
	case "string", "anyType", "anySimpleType":
		return value{s, s == ""}, nil
	case "normalizedString":
		s = strings.NewReplacer("\n", " ", "\t", " ", "\r", " ").Replace(s)
		return value{s, s == ""}, nil
	}
	s = strings.Join(strings.Fields(s), " ")
	switch b {
	case "boolean":
		switch s {
		case "true", "1":
			return value{"true", false}, nil
		case "false", "0":
			return value{"false", true}, nil
		}
		return v, fmt.Errorf("%q is not a boolean", s)
	case "byte", "short", "int", "integer", "long", "unsignedByte", "unsignedShort", "unsignedInt", "unsignedLong",
		"nonNegativeInteger", "positiveInteger", "nonPositiveInteger", "negativeInteger":
		n, ok := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
		if !ok {
			return v, fmt.Errorf("%q is not an integer", s)
		}
		return value{n.String(), n.Sign() == 0}, nil
	case "decimal", "double":
		f, err := strconv.ParseFloat(s, 64)
		return value{strconv.FormatUint(math.Float64bits(f+0), 16), f == 0}, err
	case "float":
		f, err := strconv.ParseFloat(s, 32)
		return value{strconv.FormatUint(math.Float64bits(f+0), 16), f == 0}, err
	case "hexBinary":
		x, err := hex.DecodeString(s)
		return value{hex.EncodeToString(x), len(x) == 0}, err
	case "base64Binary":
		x, err := base64.StdEncoding.DecodeString(strings.ReplaceAll(s, " ", ""))
		return value{hex.EncodeToString(x), len(x) == 0}, err
	case "dateTime", "date", "time", "gYear", "gYearMonth", "gMonth", "gMonthDay", "gDay":
		t, err := calendar(b, s)
		return value{t.UTC().Format(time.RFC3339Nano), t.IsZero()}, err
	}
	return value{s, s == ""}, nil
}

var calendarForms = map[string]*regexp.Regexp{}

func init() {
	const (
		Y  = `(?P<Y>\d{4})`
		M  = `(?P<M>\d\d)`
		D  = `(?P<D>\d\d)`
		hm = `(?P<h>\d\d):(?P<m>\d\d):(?P<s>\d\d)(?P<f>\.\d+)?`
		z  = `(?P<z>Z|[-+]\d\d:\d\d)?$`
	)
	for b, f := range map[string]string{
		"dateTime": Y + "-" + M + "-" + D + "T" + hm, "date": Y + "-" + M + "-" + D, "time": hm, "gYear": Y, "gYearMonth": Y + "-" + M,
		"gMonth": "--" + M, "gMonthDay": "--" + M + "-" + D, "gDay": "---" + D,
	} {
		calendarForms[b] = regexp.MustCompile("^" + f + z)
	}
}

// calendar reads the date and time types; absent parts are the ones of the
// first of January of the year 0.
func calendar(b, s string) (time.Time, error) {
	re := calendarForms[b]
	m := re.FindStringSubmatch(s)
	if m == nil {
		return time.Time{}, fmt.Errorf("%q is not a %s", s, b)
	}
	y, mo, d, h, mi, sec, ns, off := 0, 1, 1, 0, 0, 0, 0, 0
	for i, n := range re.SubexpNames() {
		x, _ := strconv.Atoi(m[i])
		switch n {
		case "Y":
			y = x
		case "M":
			mo = x
		case "D":
			d = x
		case "h":
			h = x
		case "m":
			mi = x
		case "s":
			sec = x
		case "f":
			if m[i] != "" {
				ns, _ = strconv.Atoi((m[i][1:] + "000000000")[:9])
			}
		case "z":
			if len(m[i]) > 1 {
				a, _ := strconv.Atoi(m[i][1:3])
				c, _ := strconv.Atoi(m[i][4:])
				off = a*3600 + c*60
				if m[i][0] == '-' {
					off = -off
				}
			}
		}
	}
	return time.Date(y, time.Month(mo), d, h, mi, sec, ns, time.FixedZone("", off)), nil
}

// canonGo maps what the server says about a Go value to a value.
func canonGo(b, s string) (value, error) {
	switch b {
	case "hexBinary", "base64Binary":
		return value{s, s == ""}, nil
	case "dateTime", "date", "time", "gYear", "gYearMonth", "gMonth", "gMonthDay", "gDay":
		return value{s, s == "0001-01-01T00:00:00Z"}, nil
	}
	return canon(b, s)
}

// canonText and canonDump extend that to lists.
func canonText(e expect, s string) (value, error) { return canonList(e, s, canon) }

func canonDump(e expect, s string) (value, error) {
	if e.list && e.builtin == "unsignedByte" { // a slice of bytes
		x, err := hex.DecodeString(s)
		if err != nil {
			return value{}, err
		}
		s = strings.Trim(fmt.Sprint([]byte(x)), "[]")
	}
	return canonList(e, s, canonGo)
}

func canonList(e expect, s string, f func(b, s string) (value, error)) (value, error) {
	if !e.list {
		return f(e.builtin, s)
	}
	var out []string
	for _, w := range strings.Fields(s) {
		v, err := f(e.builtin, w)
		if err != nil {
			return v, err
		}
		out = append(out, v.text)
	}
	return value{strings.Join(out, " "), len(out) == 0}, nil
}
