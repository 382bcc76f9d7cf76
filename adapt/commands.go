package adapt

import (
	autotidy "github.com/unsafe-risk/utilx/cmd/autotidy"
	autoupdate "github.com/unsafe-risk/utilx/cmd/autoupdate"
)

// RunCommand runs one of the commands' main functions.
func RunCommand(kind int) {
	if kind == 0 {
		autotidy.SimMain()
		return
	}
	autoupdate.SimMain()
}
