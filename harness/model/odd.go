package model

import (
	"fmt"
	"net/url"
	"path"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// OddNames lists field names that code might normalise, trim, split or treat
// specially although nothing says so, among them those made of the string
// constants of the sources under test.
func OddNames() []string {
	names := []string{
		" ", " a", "a ", " a ", "a b", "\ta", "a\n", "a\r\n", "\u00a0a", "\ufeffa", "a\u200b", "\x00", "a\x00b", "\x7f",
		"A", "aB", "Ab", "ABC", "É", "é", "e\u0301", "ß", "ẞ", "İ", "ı", "K", "ſ", "σ", "ς", "Dž", "日本", "\U0001F600", "a\xff", "\xc3\x28", "\ufffd",
		"@timestamp", "@", "@metadata", "_id", "_", "__", "$x", "${x}", "$", "%{x}", "{{x}}", "%", "%41", "a%20b", "+", "a+b", "#", "#a", "!", "~", "~1", "~0",
		"a-b", "a_b", "a/b", "/", "/a", "a//b", "a:b", "::", ":", "a,b", ",", ";", "a;b", "a|b", "a=b", "a&b", "?", "*", "a*", "**", "^a", "a$", "(a)", "[a]", "a[0]", "[0]", "{a}", "<a>", "\"", "\"a\"", "'a'", "`a`",
		".", "a.b", ".a", "a.", "..", "a..b", ".a.", `\`, `\a`, `a\`, `\\`, `a\b`, `\.`, `a\.b`, `a\\.b`, `\n`, `\u0041`,
		"0", "1", "-1", "00", "01", "1.5", "1e3", "0x1", "-", "--", "true", "false", "null", "nil", "undefined", "NaN", "Infinity", "<nil>", "{}", "[]", "on_failure", "if", "field", "fields", "value", "string", "omitempty",
		"constructor", "__proto__", "first", "last", "any", "self", "parent", "root",
		strings.Repeat("x", 63), strings.Repeat("x", 64), strings.Repeat("x", 65), strings.Repeat("x", 255), strings.Repeat("x", 256), strings.Repeat("x", 257), strings.Repeat("é", 128), strings.Repeat("x.", 40), strings.Repeat("x", 5000), strings.Repeat(`\`, 300),
	}
	seen := map[string]bool{}
	for _, n := range names {
		seen[n] = true
	}
	for _, n := range SourceNames() {
		if !seen[n] {
			names = append(names, n)
		}
	}
	return names
}

// Cognates lists the names an odd name might be confused with.
func Cognates(name string) []string {
	var out []string
	add := func(s string) {
		if s == name || s == "" {
			return
		}
		for _, o := range out {
			if o == s {
				return
			}
		}
		out = append(out, s)
	}
	add(strings.TrimSpace(name))
	add(strings.TrimLeft(name, " \t"))
	add(strings.TrimRight(name, " \t\r\n"))
	add(strings.ToLower(name))
	add(strings.ToUpper(name))
	add(strings.Title(name))
	add(strings.ToValidUTF8(name, "\ufffd"))
	add(strings.ToValidUTF8(name, ""))
	add(strings.Map(func(r rune) rune {
		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
			return r
		}
		return '_'
	}, name))
	add(strings.Map(func(r rune) rune {
		if r < ' ' || r > '~' {
			return -1
		}
		return r
	}, name))
	add(strings.ReplaceAll(name, " ", ""))
	add(strings.ReplaceAll(name, `\`, ""))
	add(strings.ReplaceAll(name, `\\`, `\`))
	add(strings.ReplaceAll(name, `\.`, "."))
	add(strings.ReplaceAll(name, ".", ""))
	add(strings.ReplaceAll(name, ".", `\.`))
	add(Escape(name))
	add(strings.Trim(name, "."))
	add(strings.ReplaceAll(name, "-", "_"))
	add(strings.Trim(name, "\"'`[](){}<>$@#_%*!^/"))
	add(path.Clean("/" + name)[1:])
	if u, err := url.QueryUnescape(name); err == nil {
		add(u)
	}
	if u, err := strconv.Unquote(`"` + name + `"`); err == nil {
		add(u)
	}
	if n, err := strconv.ParseFloat(name, 64); err == nil {
		add(fmt.Sprint(n))
	}
	if len(name) > 1 {
		add(name[:len(name)-1])
		add(name[1:])
	}
	for _, n := range []int{32, 64, 128, 256, 1024, 4096} {
		if len(name) > n {
			add(name[:n])
		}
	}
	add(name + " ")
	add(" " + name)
	return out
}

// OddTree is an object whose member name holds leaf, next to members of all
// names it might be confused with, which hold different leaves of the kind that
// other makes. With a nil leaf it has no member of that name. The members'
// parts are there as nested objects too where the name has dots.
func OddTree(name string, leaf *V, other func(i int) *V) *V {
	o := O(nil)
	for i, c := range Cognates(name) {
		o.O[c] = other(i)
	}
	if parts := Path(name); len(parts) > 1 {
		t := &Tree{Root: o}
		t.Put(parts, other(99), false)
	}
	if leaf != nil {
		o.O[name] = leaf
	}
	return o
}

// OddSpots lists the spots where an odd name is put: the path and a function
// that makes an event with the object o around it.
func OddSpots(name string) []OddSpot {
	spots := []OddSpot{
		{[]string{name}, func(o *V) *V {
			r := O(nil)
			for k, v := range o.O {
				if !strings.Contains(k, `\`) { // no event has such a field at the top
					r.O[k] = v.Clone()
				}
			}
			return r
		}},
		{[]string{"n", name}, func(o *V) *V { return KV("n", o.Clone(), "z", I(9)) }},
		{[]string{name, "m"}, func(o *V) *V {
			r := O(nil)
			for k, v := range o.O {
				if !strings.Contains(k, `\`) {
					r.O[k] = KV("m", v.Clone())
				}
			}
			return r
		}},
		{[]string{"n", name, name}, func(o *V) *V {
			r := O(nil)
			for k := range o.O {
				r.O[k] = o.Clone()
			}
			if o.O[name] == nil {
				r.O[name] = o.Clone()
			}
			return KV("n", r, name, I(8))
		}},
	}
	// The name as a key.
	if parts := Path(name); len(parts) > 1 && len(parts) < 10 && !strings.Contains(name, `\`) {
		last := len(parts) - 1
		spots = append(spots, OddSpot{parts, func(o *V) *V {
			r := O(nil)
			for k, v := range o.O {
				if k != name && k != parts[0] {
					r.O[k] = v.Clone()
				}
			}
			if v := o.O[name]; v != nil {
				r.O[parts[last]] = v.Clone()
			}
			for i := last - 1; i >= 0; i-- {
				r = KV(parts[i], r, "z", I(int64(i)), name, I(int64(-i)))
			}
			return r
		}})
	}
	// The name next to the field that is worked on.
	for i, by := range []*V{S(name), B(true)} {
		i, by := i, by
		path := []string{"fIeld"}
		if i == 1 {
			path = []string{"nOde", "fIeld"}
		}
		spots = append(spots, OddSpot{path, func(o *V) *V {
			r := O(nil)
			if v := o.O[name]; v != nil {
				r.O["fIeld"] = v.Clone()
			}
			t := &Tree{Root: r}
			if !strings.Contains(name, `\`) {
				t.Put(Path(name), by.Clone(), false)
				r.O[name] = by.Clone()
			}
			if i == 1 {
				t.Root = KV("nOde", r)
				if !strings.Contains(name, `\`) && name != "nOde" && !strings.HasPrefix(name, "nOde.") {
					t.Put(Path(name), by.Clone(), false)
				}
			}
			return t.Root
		}})
	}
	return spots
}

type OddSpot struct {
	Path []string
	Make func(o *V) *V
}

// OddKeys calls f with every spot an odd name has that a key can name.
func OddKeys(name string, f func(key string, path []string, mk func(o *V) *V)) {
	for _, s := range OddSpots(name) {
		key := Key(s.Path...)
		if StrayBackslash(key) || len(Path(key)) != len(s.Path) {
			continue
		}
		f(key, s.Path, s.Make)
	}
}

// Names lists the member names of an object in order.
func Names(o *V) []string {
	var out []string
	for k := range o.O {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Twins pairs an odd name with each name it might be confused with: two keys,
// their paths, and an event that has both, and all the others.
func Twins(name string, other func(i int) *V, f func(key, twin string, path, twinPath []string, tree *V)) {
	bad := func(s string) bool { return s == "" || strings.Contains(s, `\`) }
	if bad(name) {
		return
	}
	top := OddTree(name, other(70), other)
	for k := range top.O {
		if bad(k) { // no event has such a field at the top
			delete(top.O, k)
		}
	}
	for _, c := range Cognates(name) {
		if bad(c) || c == name {
			continue
		}
		f(Key(name), Key(c), []string{name}, []string{c}, top.Clone())
		f(Key("n", name), Key("n", c), []string{"n", name}, []string{"n", c}, KV("n", OddTree(name, other(71), other), "z", other(72)))
	}
}
