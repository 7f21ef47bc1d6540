// Command replay runs one harness natively on recorded inputs.
package main

import (
	"fmt"
	"os"
	"runtime/debug"

	"github.com/youthlin/t/zzverif/h"
	"github.com/youthlin/t/zzverif/sym"
)

func main() {
	name := sym.Load(os.Args[1])
	f := h.All[name]
	if f == nil {
		fmt.Fprintln(sym.Out, "GOSYM-DIVERGED: no harness " + name)
		os.Exit(3)
	}
	defer sym.Cleanup()
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(sym.Out, "GOSYM-PANIC: %v\n", r)
				sym.Out.Write(debug.Stack())
				sym.Cleanup()
				os.Exit(2)
			}
		}()
		f()
	}()
	if sym.Fails() > 0 {
		sym.Cleanup()
		os.Exit(1)
	}
	if !sym.Exhausted() {
		fmt.Fprintln(sym.Out, "GOSYM-DIVERGED: inputs left over")
		sym.Cleanup()
		os.Exit(3)
	}
	fmt.Fprintln(sym.Out, "GOSYM-OK")
}
