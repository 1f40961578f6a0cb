package pipe

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"path"
	"strings"

	"vsim/simrt"
)

func digest(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

var takes = map[string]string{"ll": ".b", "s": ".b .ll", "o": ".b .ll .s", "exe": ".b .ll .s .o .a"}

// mustFail says why the command cannot succeed in the scenario's world, or
// nothing. It looks at the scenario alone, so that it stays right when the
// scenario is minimised.
func mustFail(s *Scenario, c *Cmd) string {
	if len(c.Inputs) == 0 {
		return "there is no input"
	}
	if c.BadOpt != "" {
		return fmt.Sprintf("%q is no optimization level", c.BadOpt)
	}
	if c.Mode != "exe" && c.Out != "" && len(c.Inputs) > 1 {
		return "several outputs cannot have one name"
	}
	at := map[string]*File{}
	dirs := map[string]bool{c.Cwd: true}
	for i := range s.Files {
		f := &s.Files[i]
		at[f.Path] = f
		d := path.Dir(f.Path)
		if f.Dir {
			d = f.Path
		}
		for ; d != "/" && d != "."; d = path.Dir(d) {
			dirs[d] = true
		}
	}
	for _, in := range c.Inputs {
		if e := path.Ext(in); e == "" || !strings.Contains(takes[c.Mode]+" ", e+" ") {
			return fmt.Sprintf("%s is not a kind of file this mode takes", in)
		}
		if strings.HasPrefix(in, "-") {
			return ""
		}
		p := c.abs(in)
		f := at[p]
		switch {
		case dirs[p]:
			return fmt.Sprintf("input %s is a directory", in)
		case f == nil:
			return fmt.Sprintf("input %s does not exist", in)
		case f.Perm != 0 && f.Perm&0o400 == 0:
			return fmt.Sprintf("input %s is not readable", in)
		case f.Defect != "" && f.Defect == digest(f.Bytes()):
			return fmt.Sprintf("input %s is not a program", in)
		case path.Ext(in) != ".b" && strings.Contains(string(f.Bytes()), simrt.BadInput):
			return fmt.Sprintf("input %s is rejected by clang", in)
		}
	}
	for _, o := range c.Outputs() {
		if dirs[o.Path] {
			return fmt.Sprintf("output %s is a directory", o.Path)
		}
		if !dirs[path.Dir(o.Path)] && path.Dir(o.Path) != "/" {
			return fmt.Sprintf("output %s has no directory", o.Path)
		}
	}
	if c.Mode != "ll" {
		f := at[simrt.ClangPath]
		if f != nil && f.Perm != 0 && f.Perm&0o111 == 0 && onlyClang(s, c) {
			return "clang cannot be run"
		}
	}
	return ""
}

// onlyClang tells whether clang's usual place is the only one.
func onlyClang(s *Scenario, c *Cmd) bool {
	for i := range s.Files {
		if f := &s.Files[i]; path.Base(f.Path) == "clang" && f.Path != simrt.ClangPath {
			return false
		}
	}
	return true
}
