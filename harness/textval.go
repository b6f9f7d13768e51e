package main

import (
	"fmt"
	"os"

	. "github.com/steelseries/golisp"
)

// (vtext kind text [env]): the entry points of the host API that evaluate or read a text.
// "all" and "one" evaluate all forms or the first one, "file" all forms of a file, "read" reads one datum and
// "read-all" all of them (the outcome is (n datum ...), n telling whether there was an error).
func installTexts() {
	n := 0
	MakePrimitiveFunction("vtext", "2|3", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		kind, text := StringValue(Car(args)), StringValue(Cadr(args))
		var e *SymbolTableFrame
		if Length(args) == 3 {
			e = EnvironmentValue(Caddr(args))
		}
		switch kind {
		case "all":
			if e != nil {
				return ParseAndEvalAllInEnvironment(text, e)
			}
			return ParseAndEvalAll(text)
		case "one":
			if e != nil {
				return ParseAndEvalInEnvironment(text, e)
			}
			return ParseAndEval(text)
		case "file":
			n++
			name := fmt.Sprintf("vtext-%d-%d", os.Getpid(), n)
			if err := os.WriteFile(name, []byte(text), 0600); err != nil {
				panic(err)
			}
			defer os.Remove(name)
			if e != nil {
				return ProcessFileInEnvironment(name, e)
			}
			return ProcessFile(name)
		case "read":
			return Parse(text)
		case "read-all":
			l, err := ParseAll(text)
			return Cons(BooleanWithValue(err != nil), ArrayToList(l)), nil
		}
		panic(kind)
	})
	// (vput name text): a file
	MakePrimitiveFunction("vput", "2", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		return nil, os.WriteFile(StringValue(Car(args)), []byte(StringValue(Cadr(args))), 0600)
	})
}
