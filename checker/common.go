package main

import "golang.org/x/tools/go/ssa"

// defaultOpaque: packages outside the one under analysis are summarised where
// their own rules cover them.
func defaultOpaque(fn *ssa.Function) bool {
	switch shortName(fn) {
	case "bencode.Marshal", "bencode.Unmarshal":
		return true
	}
	return false
}
