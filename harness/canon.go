package main

import (
	"fmt"
	"sort"
	"strings"

	. "github.com/steelseries/golisp"
)

// canon renders a value in the harness's own notation. It is written against the exported
// accessors only, so that it does not depend on the interpreter's own printer.
func canon(d *Data) string {
	var b strings.Builder
	canonTo(&b, d, 0)
	return b.String()
}

func isNil(d *Data) bool {
	if d == nil {
		return true
	}
	t := TypeOf(d)
	return (t == ConsCellType || t == AlistType || t == AlistCellType) && Car(d) == nil && Cdr(d) == nil
}

func isPair(d *Data) bool {
	if isNil(d) {
		return false
	}
	t := TypeOf(d)
	return t == ConsCellType || t == AlistType || t == AlistCellType
}

func canonTo(b *strings.Builder, d *Data, depth int) {
	if depth > 200 {
		b.WriteString("...")
		return
	}
	if isNil(d) {
		b.WriteString("()")
		return
	}
	if isPair(d) {
		b.WriteByte('(')
		n := 0
		for isPair(d) {
			if n > 0 {
				b.WriteByte(' ')
			}
			if n > 3000 {
				b.WriteString("...")
				d = nil
				break
			}
			canonTo(b, Car(d), depth+1)
			d = Cdr(d)
			n++
		}
		if !isNil(d) {
			b.WriteString(" . ")
			canonTo(b, d, depth+1)
		}
		b.WriteByte(')')
		return
	}
	switch TypeOf(d) {
	case IntegerType:
		fmt.Fprintf(b, "%d", IntegerValue(d))
	case FloatType:
		fmt.Fprintf(b, "%gf", FloatValue(d))
	case BooleanType:
		if BooleanValue(d) {
			b.WriteString("#t")
		} else {
			b.WriteString("#f")
		}
	case StringType:
		fmt.Fprintf(b, "%q", StringValue(d))
	case SymbolType:
		b.WriteString(StringValue(d))
	case FunctionType:
		b.WriteString("<fn>")
	case MacroType:
		b.WriteString("<macro>")
	case PrimitiveType:
		b.WriteString("<prim:" + PrimitiveValue(d).Name + ">")
	case FrameType:
		f := FrameValue(d)
		f.Mutex.RLock()
		keys := make([]string, 0, len(f.Data))
		vals := make(map[string]*Data, len(f.Data))
		for k, v := range f.Data {
			keys = append(keys, k)
			vals[k] = v
		}
		f.Mutex.RUnlock()
		sort.Strings(keys)
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(k)
			b.WriteByte(' ')
			if depth > 20 {
				b.WriteString("...")
			} else if strings.HasSuffix(k, "*:") && TypeOf(vals[k]) == FrameType {
				b.WriteString("<frame>") // parent links may be cyclic
			} else {
				canonTo(b, vals[k], depth+1)
			}
		}
		b.WriteByte('}')
	case EnvironmentType:
		b.WriteString("<env>")
	case PortType:
		b.WriteString("<port>")
	case BoxedObjectType:
		if ObjectType(d) == "[]byte" {
			bs := *(*[]byte)(ObjectValue(d))
			b.WriteByte('[')
			for i, x := range bs {
				if i > 0 {
					b.WriteByte(' ')
				}
				fmt.Fprintf(b, "%d", x)
			}
			b.WriteByte(']')
		} else {
			b.WriteString("<" + ObjectType(d) + ">")
		}
	default:
		b.WriteString("<?>")
	}
}
