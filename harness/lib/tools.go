package lib

import (
	"os"

	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
)

type exit struct{ code int }

// Exit stands for os.Exit in the commands.
func Exit(code int) { panic(exit{code}) }

// Tool runs a command. It returns the lines it printed, and whether it
// crashed.
func Tool(main func(), args ...string) (lines [][]byte, crashed bool) {
	old := os.Args
	os.Args = append([]string{"tool"}, args...)
	vsym.Capture()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(exit); !ok {
					crashed = true
				}
			}
		}()
		main()
	}()
	lines = vsym.Lines()
	os.Args = old
	return lines, crashed
}
