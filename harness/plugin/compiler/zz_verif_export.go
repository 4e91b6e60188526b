package plugin_compiler

import (
	"golang.org/x/mod/modfile"
)

// VerifRelocate exports relocateGoModFile.
func VerifRelocate(f *modfile.File, next string) error { return relocateGoModFile(f, next) }
