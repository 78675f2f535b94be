package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

var trace = os.Getenv("GEOQL_TRACE") != "" || traceBlk != ""

var traceBlk = os.Getenv("GEOQL_BLK")

func (fr *Frame) traceStep(st *State, in ssa.Instruction) {
	if in == in.Block().Instrs[0] && fmt.Sprintf("%s:%d", fr.fi.fn.Name(), in.Block().Index) == traceBlk {
		if debugState {
			fmt.Fprintln(os.Stderr, "CTX", fr.ctx.args)
		}
		dumpState(st, traceBlk)
	}
	if traceBlk != "" {
		return
	}
	s := in.String()
	if v, ok := in.(ssa.Value); ok {
		s = v.Name() + " = " + s
	}
	fmt.Fprintf(os.Stderr, "%*s%s b%d %s\n", len(fr.e.stack), "", fr.fi.fn.Name(), in.Block().Index, s)
}

var debugState = os.Getenv("GEOQL_STATE") != ""

// dumpState prints a state for debugging.
func dumpState(st *State, what string) {
	if debugState {
		fmt.Fprintln(os.Stderr, "STATE", what, st.canonKey(st.reach(st.allRoots()), st.allRoots()))
	}
}

var debugCtx = os.Getenv("GEOQL_CTX")
