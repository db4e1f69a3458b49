//sym:into ripsrc/cmd/cmdcode

package cmdcode

import (
	"bytes"
	"context"
	"strconv"
	"strings"

	"github.com/fatih/color"
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// SymC21Code: the code command on any mix of repositories.
func SymC21Code() {
	vs.CaptureStdout()
	vs.FreshHash()
	s := vs.NewCmdRepos(vs.Param("repos", 2), []string{"log", "rev-parse"})
	var col, out bytes.Buffer
	color.Output, color.NoColor = &col, true
	check := func(code int) {
		vs.Assert((code != 0) == s.Fails(), "the exit status tells whether something failed")
		all := vs.Stdout() + col.String() + out.String()
		vs.Assert(code == 0 || !strings.Contains(all, "Finished"), "success is reported only when nothing failed")
		for i, k := range s.State {
			n := strings.Count(all, "f"+strconv.Itoa(i)+".d")
			vs.Assert(k != vs.RepoOK || n >= 2, "every repository is processed")
		}
		if code == 0 {
			vs.Reach("succeeded")
		} else {
			vs.Reach("failed")
		}
	}
	vs.OnExit(check)
	Run(context.Background(), &out, Opts{Dir: s.Dir})
	check(0)
}
