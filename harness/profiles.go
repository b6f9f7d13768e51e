package main

import (
	"os"
	"regexp"
	"sort"
	"strings"

	. "github.com/steelseries/golisp"
)

var recordRE = regexp.MustCompile(`^\{time: (\d+) guid: (\d+) mode: '(enter|exit) type: '(\S+) name: '(.*)\}$`)

type profNode struct {
	kind, name, guid string
	children         []*profNode
}

func (n *profNode) data() *Data {
	l := []*Data{Intern(n.kind), Intern(n.name)}
	for _, c := range n.children {
		l = append(l, c.data())
	}
	return ArrayToList(l)
}

// (vprof file): the calls that a profile tells of, as lists (type name call ...), without quote, which the interpreter
// also uses by itself; or a symbol that says what is wrong with it.
// (vprof-all file): the same, in any order and not nested, as several processes write it: sorted strings.
func installProfiles() {
	read := func(file string) ([][]string, string) {
		b, err := os.ReadFile(file)
		if err != nil {
			return nil, "no-file"
		}
		var out [][]string
		for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
			if l == "" && len(b) == 0 {
				continue
			}
			m := recordRE.FindStringSubmatch(l)
			if m == nil {
				return nil, "bad-record"
			}
			out = append(out, m)
		}
		return out, ""
	}
	MakePrimitiveFunction("vprof", "1", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		recs, bad := read(StringValue(Car(args)))
		if bad != "" {
			return Intern(bad), nil
		}
		root := &profNode{}
		stack := []*profNode{root}
		seen := map[string]bool{}
		last := ""
		for _, m := range recs {
			if len(m[1]) < len(last) || (len(m[1]) == len(last) && m[1] < last) {
				return Intern("time-goes-back"), nil
			}
			last = m[1]
			top := stack[len(stack)-1]
			if m[3] == "enter" {
				if seen[m[2]] {
					return Intern("guid-twice"), nil
				}
				seen[m[2]] = true
				n := &profNode{kind: m[4], name: m[5], guid: m[2]}
				if n.name != "quote" {
					top.children = append(top.children, n)
				}
				stack = append(stack, n)
			} else {
				if top == root || top.guid != m[2] || top.kind != m[4] || top.name != m[5] {
					return Intern("not-nested"), nil
				}
				stack = stack[:len(stack)-1]
			}
		}
		if len(stack) != 1 {
			return Intern("not-closed"), nil
		}
		return Cddr(root.data()), nil
	})
	MakePrimitiveFunction("vprof-all", "1", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		recs, bad := read(StringValue(Car(args)))
		if bad != "" {
			return Intern(bad), nil
		}
		open := map[string]string{}
		seen := map[string]bool{}
		var names []string
		for _, m := range recs {
			what := m[4] + " " + m[5]
			if m[3] == "enter" {
				if seen[m[2]] {
					return Intern("guid-twice"), nil
				}
				seen[m[2]], open[m[2]] = true, what
				if m[5] != "quote" {
					names = append(names, what)
				}
			} else {
				if open[m[2]] != what {
					return Intern("not-nested"), nil
				}
				delete(open, m[2])
			}
		}
		if len(open) != 0 {
			return Intern("not-closed"), nil
		}
		sort.Strings(names)
		var l []*Data
		for _, n := range names {
			l = append(l, StringWithValue(n))
		}
		return ArrayToList(l), nil
	})
}
