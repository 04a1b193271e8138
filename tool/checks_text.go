package main

import "fmt"

const textDriver = `package driver

import (
	"bytes"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/value"
)

type failed struct{}

func (failed) Error() string { return "" }

var (
	parsed  int64
	parses  int
	decoded []byte
	wrong   error
)

func reset() {
	parsed, parses, decoded, wrong = 0, 0, nil, nil
	resetBuffers()
}

func mParseInt(s string, base, bits int) (int64, error)   { parses++; return parsed, wrong }
func mParseUint(s string, base, bits int) (uint64, error) { parses++; return uint64(parsed), wrong }
func mParseDuration(s string) (time.Duration, error)      { parses++; return time.Duration(parsed), wrong }
func mAtoi(s string) (int, error)                         { parses++; return int(parsed), wrong }
func mHex(s string) ([]byte, error)                       { parses++; return decoded, wrong }
func mSubmatch(_ any, b []byte) [][]byte                  { parses++; return nil }

var _ value.ByteLength
var _ cli.Flag
`

// ruleText: what each built-in destination has after text was set
func ruleText(c *Ctx) {
	var ls []law
	add := func(key, body string) { ls = append(ls, law{"text", key, "reset(); " + body}) }
	for _, t := range []string{"Flag", "Arg"} {
		on := " (" + t + ")"
		set := "(&cli." + t + "{Name: \"f\", Value: &s}).Set"
		for _, b := range []string{"1", "true", "on", "t", "TRUE", "True", "ON", "T"} {
			add("bool "+b+on, fmt.Sprintf(`s := yes; err := %s(%q); return err == nil && s`, set, b))
		}
		for _, b := range []string{"0", "false", "off", "f", "FALSE", "False", "Off", "F"} {
			add("bool "+b+on, fmt.Sprintf(`s := yes; err := %s(%q); return err == nil && !s`, set, b))
		}
		for _, b := range []string{"2", "-1", "x", "tru", "truee", "fals", "of", "offf", "00", "true ", " true", "nil", "true,false", "1.0"} {
			add("not a bool: "+b+on, fmt.Sprintf(`s := yes; err := %s(%q); return err != nil && s == yes`, set, b))
		}
		add("text"+on, `s := ""; err := `+set+`(v); return err == nil && s == v`)
		add("more text"+on, `s := w; err := `+set+`(v); return err == nil && s == w + " " + v`)
		add("list"+on, `s := []string{w}; err := `+set+`("b,c"); return err == nil && len(s) == 3 && s[0] == w && s[1] == "b" && s[2] == "c"`)
		add("list of one"+on, `var s []string; err := `+set+`("b"); return err == nil && len(s) == 1 && s[0] == "b"`)
		add("list with a comma"+on, `var s []string; err := `+set+`("b\\,c"); return err == nil && len(s) == 1 && s[0] == "b,c"`)
		add("list with several commas"+on, `var s []string; err := `+set+`("a\\,b,c,,d\\,"); return err == nil && len(s) == 4 && s[0] == "a,b" && s[1] == "c" && s[2] == "" && s[3] == "d,"`)
		add("map with escapes"+on, `var s map[string]string; err := `+set+`("a\\=b=c,d=e\\,f,g=h=i"); return err == nil && len(s) == 3 && s["a=b"] == "c" && s["d"] == "e,f" && s["g"] == "h=i"`)
		add("pairs with escapes"+on, `var s []*cli.NameValue; err := `+set+`("a\\=b=c,d=e\\,f"); return err == nil && len(s) == 2 && s[0].Name == "a=b" && s[0].Value == "c" && s[1].Name == "d" && s[1].Value == "e,f"`)
		add("bytes"+on, `decoded = []byte{3, 4}; s := []byte{1, 2}; err := `+set+`("0304"); return err == nil && len(s) == 4 && s[0] == 1 && s[1] == 2 && s[2] == 3 && s[3] == 4`)
		add("not bytes"+on, `decoded, wrong = []byte{3}, e; s := []byte{1, 2}; err := `+set+`("03x"); return err != nil && len(s) == 2 && s[0] == 1 && s[1] == 2`)
		add("map"+on, `var s map[string]string; err := `+set+`("a=b,c=d"); return err == nil && len(s) == 2 && s["a"] == "b" && s["c"] == "d"`)
		add("more of a map"+on, `s := map[string]string{"a": "x", "e": "f"}; err := `+set+`("a=b,c=d"); return err == nil && len(s) == 3 && s["a"] == "b" && s["c"] == "d" && s["e"] == "f"`)
		add("map value with an equal sign"+on, `var s map[string]string; err := `+set+`("a=b=c"); return err == nil && len(s) == 1 && s["a"] == "b=c"`)
		add("pairs"+on, `o := &cli.NameValue{}; s := []*cli.NameValue{o}; err := `+set+`("a=b,c=d=e"); return err == nil && len(s) == 3 && s[0] == o && s[1].Name == "a" && s[1].Value == "b" && s[2].Name == "c" && s[2].Value == "d=e"`)
		add("pairs, one without a value"+on, `o := &cli.NameValue{}; s := []*cli.NameValue{o}; err := `+set+`("a=b,c"); return err != nil && len(s) == 1 && s[0] == o`)
		add("pair"+on, `s := cli.NameValue{}; err := `+set+`("a=b=c"); return err == nil && s.Name == "a" && s.Value == "b=c"`)
		for _, n := range []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "time.Duration"} {
			add(n+on, fmt.Sprintf(`s := %s(4); parsed = 7; err := %s("7"); return err == nil && s == 7 && parses == 1`, n, set))
			add("not "+n+on, fmt.Sprintf(`s := %s(4); parsed, wrong = 7, e; err := %s("7x"); return err != nil && s == 4`, n, set))
		}
	}
	add("number of bytes", `s := value.ByteLength(4); parsed = 7; err := s.UnmarshalText([]byte("7")); return err == nil && s == 7`)
	add("not a number of bytes", `s := value.ByteLength(4); wrong = e; err := s.UnmarshalText([]byte("x")); return err != nil && s == 4`)
	add("not a number of bytes with a unit", `s := value.ByteLength(4); err := s.UnmarshalText([]byte("xB")); return err != nil && s == 4`)
	add("octal", `s := value.Octal(4); parsed = 7; err := s.UnmarshalText([]byte("0o7")); return err == nil && s == 7`)
	add("not octal", `s := value.Octal(4); wrong = e; err := s.UnmarshalText([]byte("0o8")); return err != nil && s == 4`)
	for _, n := range []string{"Hex"} {
		if o := c.W.Type("value", n); o == nil {
			continue
		}
		add("hexadecimal", `s := value.Hex(4); parsed = 7; err := s.UnmarshalText([]byte("0x7")); return err == nil && s == 7`)
		add("not hexadecimal", `s := value.Hex(4); wrong = e; err := s.UnmarshalText([]byte("0xg")); return err != nil && s == 4`)
	}

	dw, err := c.W.Driven(textDriver + bufferModels + lawSource(ls))
	if err != nil {
		c.Bad("text", "values", "-", "values cannot be set as documented: %v", err)
		return
	}
	dw.modelled(bufferNames)
	dw.modelled(map[string]string{"strconv.ParseInt": "mParseInt", "strconv.ParseUint": "mParseUint", "time.ParseDuration": "mParseDuration", "strconv.Atoi": "mAtoi", "encoding/hex.DecodeString": "mHex", "regexp.(Regexp).FindSubmatch": "mSubmatch"})
	c.lawful(dw, ls, "value.go", AOpts{Depth: 40, MaxSteps: 2000000})
}
