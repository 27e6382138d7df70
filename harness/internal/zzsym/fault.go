package zzsym

import "os"

// installFault is replaced in the native runs that need it.
func installFault(func(f *os.File, write bool) error) { panic("no faults here") }
