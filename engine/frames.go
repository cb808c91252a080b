package main

// Call stacks as the program sees them: runtime.Callers, runtime.Stack and the positions they lead to.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// A call is one line of a call stack: fn is at pos.
type callAt struct {
	fn  *ssa.Function // nil: runtime.gopanic
	pos token.Pos
}

// pcs tells which function a program counter, that is a position, belongs to.
var pcs sync.Map // token.Pos -> *ssa.Function

func (f *Frame) pos() token.Pos {
	if f.block < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.block].code) {
		if in := f.fn.blocks[f.block].code[f.pc].in; in != nil && in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return f.fn.fn.Pos()
}

// calls lists what goroutine g is in, innermost first.
func (x *Exec) calls(g *G) []callAt {
	var out []callAt
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		if i < len(g.frames)-1 && f.panic != nil && f.panic.calls != nil {
			// a deferred call made by the panic
			out = append(out, callAt{})
			return append(out, f.panic.calls...)
		}
		if f.fn == nil || f.fn.fn == nil {
			continue
		}
		fn := f.fn.fn
		if fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/internal/vf") && strings.HasPrefix(fn.Name(), "m") {
			continue // a model
		}
		if fn.Synthetic != "" && fn.Origin() == nil && fn.Parent() == nil && fn.Name() != "init" {
			continue // a wrapper
		}
		out = append(out, callAt{fn, f.pos()})
	}
	return out
}

// runtimeName is the name the runtime has for fn.
func runtimeName(fn *ssa.Function) string {
	if fn == nil {
		return "runtime.gopanic"
	}
	if p := fn.Parent(); p != nil {
		i := strings.LastIndex(fn.Name(), "$")
		n := fn.Name()[i+1:]
		if p.Parent() != nil {
			return runtimeName(p) + "." + n
		}
		return runtimeName(p) + ".func" + n
	}
	name := fn.Name()
	if fn.Origin() != nil {
		if i := strings.Index(name, "["); i >= 0 {
			name = name[:i] + "[...]"
		}
	}
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		path = o.Pkg.Pkg.Path()
	} else if ob := fn.Object(); ob != nil && ob.Pkg() != nil {
		path = ob.Pkg().Path()
	}
	if r := fn.Signature.Recv(); r != nil {
		t, star := r.Type(), false
		if p, ok := t.(*types.Pointer); ok {
			t, star = p.Elem(), true
		}
		if n, ok := t.(*types.Named); ok {
			tn := n.Obj().Name()
			if n.TypeArgs().Len() > 0 {
				tn += "[...]"
			}
			if star {
				tn = "(*" + tn + ")"
			}
			name = tn + "." + name
		}
	}
	if i := strings.LastIndex(name, "init#"); i >= 0 {
		k, _ := strconv.Atoi(name[i+5:])
		name = "init." + strconv.Itoa(k-1)
	}
	return path + "." + name
}

func (x *Exec) fileLine(pos token.Pos) (string, int) {
	if pos == panicPC {
		return "/go/src/runtime/panic.go", 787
	}
	p := x.e.prog.Fset.Position(pos)
	return p.Filename, p.Line
}

// panicPC stands for runtime.gopanic.
const panicPC = token.Pos(1)

func (c callAt) pc() int {
	if c.fn == nil {
		return int(panicPC)
	}
	pcs.Store(c.pos, c.fn)
	return int(c.pos)
}

func (x *Exec) pcFn(pc int) (string, bool) {
	if pc == int(panicPC) {
		return "runtime.gopanic", true
	}
	v, ok := pcs.Load(token.Pos(pc))
	if !ok {
		return "", false
	}
	return runtimeName(v.(*ssa.Function)), true
}

// stackText is what runtime.Stack writes for g.
func (x *Exec) stackText(g *G, state, top string) string {
	b := &strings.Builder{}
	fmt.Fprintf(b, "goroutine %d [%s]:\n%s", g.id+1, state, top)
	calls := x.calls(g)
	line := func(c callAt, name, args string) {
		file, n := x.fileLine(token.Pos(c.pc()))
		fmt.Fprintf(b, "%s%s\n\t%s:%d +0x1d\n", name, args, file, n)
	}
	for i, c := range calls {
		if len(calls) > 100 && i >= 50 && i < len(calls)-50 {
			if i == 50 {
				fmt.Fprintf(b, "...%d frames elided...\n", len(calls)-100)
			}
			continue
		}
		name := runtimeName(c.fn)
		if c.fn == nil {
			name = "panic"
		}
		line(c, name, "({0x1?, 0x2}, ...)")
	}
	if g.by.fn != nil {
		line(g.by, "created by "+runtimeName(g.by.fn), fmt.Sprintf(" in goroutine %d", g.byID+1))
	}
	return b.String()
}

func (x *Exec) goroutineState(g *G) string {
	switch {
	case g.id == x.s.cur:
		return "running"
	case g.status == gRun:
		return "runnable"
	}
	switch g.why.kind {
	case bChan:
		if len(g.why.cases) > 1 {
			return "select"
		}
		return "chan receive"
	case bMutex:
		return "sync.Mutex.Lock, 2 minutes"
	case bSleep:
		return "sleep"
	}
	return "semacquire, locked to thread"
}

func init() {
	pure := func(name string, f func(c *Ctx) Value) {
		reg(name, func(c *Ctx) (Value, bool) { return f(c), true })
	}
	pure(vfp+"Frames", func(c *Ctx) Value { c.x.s.framesOn = c.args[0].N != 0; return Value{} })
	pure("runtime.Caller", func(c *Ctx) Value {
		calls := c.x.calls(c.x.s.g())
		i := c.int(0)
		if i < 0 || i >= len(calls) {
			return tuple(Value{}, Value{}, Value{}, Value{})
		}
		pc := calls[i].pc()
		file, line := c.x.fileLine(token.Pos(pc))
		return tuple(intV(pc), strV(file), intV(line), boolV(true))
	})
	pure("runtime.Callers", func(c *Ctx) Value {
		if !c.x.s.framesOn {
			return Value{}
		}
		calls := c.x.calls(c.x.s.g())
		skip := c.int(0) - 1
		sl, _ := c.args[1].P.(*Slice)
		if sl == nil || skip < 0 || skip >= len(calls) {
			return Value{}
		}
		n := 0
		o := c.x.s.wobj(sl.Obj)
		for _, k := range calls[skip:] {
			if n == int(sl.Len) {
				break
			}
			o.cells[int(sl.Off)+n] = intV(k.pc())
			n++
		}
		return intV(n)
	})
	pure(vfp+"pcInfo", func(c *Ctx) Value {
		pc := c.int(0)
		name, ok := c.x.pcFn(pc)
		if !ok {
			return tuple(Value{}, Value{}, Value{})
		}
		file, line := c.x.fileLine(token.Pos(pc))
		return tuple(strV(name), strV(file), intV(line))
	})
	pure("runtime.FuncForPC", func(c *Ctx) Value {
		if name, ok := c.x.pcFn(c.int(0)); ok {
			return Value{P: Opaque{"runtime.Func " + name}}
		}
		return Value{}
	})
	pure("(*runtime.Func).Name", func(c *Ctx) Value {
		if o, ok := c.args[0].P.(Opaque); ok {
			return strV(strings.TrimPrefix(o.name, "runtime.Func "))
		}
		return Value{}
	})
	pure("(*runtime.Func).FileLine", func(c *Ctx) Value {
		file, line := c.x.fileLine(token.Pos(c.int(1)))
		return tuple(strV(file), intV(line))
	})
	pure("runtime/debug.Stack", func(c *Ctx) Value {
		text := "goroutine 1 [running]:\nvf.frame()\n\t/vf/file.go:1 +0x1\nvf.frame2()\n\t/vf/file2.go:2 +0x1\n"
		if c.x.s.framesOn {
			text = c.x.stackText(c.x.s.g(), "running", "runtime/debug.Stack()\n\t/go/src/runtime/debug/stack.go:26 +0x5e\n")
		}
		b := strBytes(strV(text))
		return c.x.newSlice(TI(types.Typ[types.Uint8]), append([]Value(nil), b...))
	})
	pure("runtime.Stack", func(c *Ctx) Value {
		sl, _ := c.args[0].P.(*Slice)
		if !c.x.s.framesOn || sl == nil {
			return Value{}
		}
		text := ""
		cur := c.x.s.g()
		text = c.x.stackText(cur, "running", "")
		if c.args[1].N != 0 {
			for _, g := range c.x.s.gs {
				if g.id != cur.id && g.status != gDone && len(g.frames) > 0 {
					text += "\n" + c.x.stackText(g, c.x.goroutineState(g), "")
				}
			}
		}
		b := strBytes(strV(text))
		o := c.x.s.wobj(sl.Obj)
		n := 0
		for n < len(b) && n < int(sl.Len) {
			o.cells[int(sl.Off)+n] = b[n]
			n++
		}
		return intV(n)
	})
}
