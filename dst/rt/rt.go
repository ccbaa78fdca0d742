// Package rt is what the instrumented copies of the system under test call at
// every statement.
package rt

import (
	"reflect"
	"runtime"
)

// Hook is installed by the simulator.
var Hook func(site int)

// Y is a scheduling point.
func Y(site int) {
	if Hook != nil {
		Hook(site)
	}
}

// Fatal is installed by the simulator: the process of this goroutine ends.
var Fatal func(why string)

type mapAcc struct {
	m     any
	p     uintptr
	g     uint64
	write bool
}

var accs []mapAcc

// Map is an access to m, which the next statement begins with. Goroutines that
// can both be here at the same time can overlap in the access as well, and the
// Go runtime ends the process if it notices.
func Map(m any, write bool, site int) {
	if Hook == nil {
		return
	}
	v := reflect.ValueOf(m)
	if v.Kind() != reflect.Map || v.IsNil() {
		return
	}
	p, g := v.Pointer(), runtime.DSTGoid()
	for i := range accs {
		if a := &accs[i]; a.p == p && a.g != g && (write || a.write) {
			why := "concurrent map read and map write"
			if write && a.write {
				why = "concurrent map writes"
			}
			Fatal(why)
			return
		}
	}
	accs = append(accs, mapAcc{m, p, g, write})
	Hook(site)
	for i := range accs {
		if accs[i].p == p && accs[i].g == g {
			accs = append(accs[:i], accs[i+1:]...)
			return
		}
	}
}
