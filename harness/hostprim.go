package main

import (
	"errors"

	. "github.com/steelseries/golisp"
)

// (vmake name spec kind): a primitive of the host. Its body logs its name and yields what it was given followed by the
// value of vq where it was called, or an error if the first thing it was given is the symbol fail.
// (vapply f args) and (vapply-raw f args): the host applies f to forms that are evaluated, or to values.
func installHostPrims() {
	MakePrimitiveFunction("vmake", "3", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		name, spec, kind := StringValue(Car(args)), StringValue(Cadr(args)), StringValue(Caddr(args))
		body := func(given *Data, env *SymbolTableFrame) (*Data, error) {
			probeMu.Lock()
			probeLog = append(probeLog, Intern(name))
			probeMu.Unlock()
			if SymbolP(Car(given)) && StringValue(Car(given)) == "fail" {
				return nil, errors.New("host error")
			}
			return Append(given, env.ValueOf(Intern("vq"))), nil
		}
		switch kind {
		case "fn":
			MakePrimitiveFunction(name, spec, body)
		case "rfn":
			MakeRestrictedPrimitiveFunction(name, spec, body)
		case "form":
			MakeSpecialForm(name, spec, body)
		case "rform":
			MakeRestrictedSpecialForm(name, spec, body)
		}
		return nil, nil
	})
	MakePrimitiveFunction("vapply", "2", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		return Apply(Car(args), Cadr(args), env)
	})
	MakePrimitiveFunction("vapply-raw", "2", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		return ApplyWithoutEval(Car(args), Cadr(args), env)
	})
}
