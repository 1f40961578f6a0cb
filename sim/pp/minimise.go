package pp

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"vsim/pipe"
	"vsim/simrt"
)

// minimise reduces the scenario while it still violates the property in the same way.
func minimise(srv *Server, s *pipe.Scenario, budget time.Duration) *pipe.Scenario {
	end := time.Now().Add(budget)
	best := copyOf(s)
	try := func(c *pipe.Scenario) bool {
		if time.Now().After(end) {
			return false
		}
		v, err := srv.Eval(c, 10*time.Second)
		if err != nil || v.Class != s.Class || v.Invalid != "" {
			return false
		}
		c.Detail, c.Trace = v.Detail, v.Trace
		best = c
		return true
	}
	// edit applies f to a copy; f tells whether it changed anything
	edit := func(f func(c *pipe.Scenario) bool) bool {
		c := copyOf(best)
		return f(c) && try(c)
	}
	for round := 0; round < 4 && time.Now().Before(end); round++ {
		changed := false
		step := func(f func(c *pipe.Scenario) bool) {
			if edit(f) {
				changed = true
			}
		}
		for i := len(best.Variants) - 1; i >= 0; i-- {
			step(func(c *pipe.Scenario) bool {
				if len(c.Variants) < 2 {
					return false
				}
				c.Variants = append(c.Variants[:i], c.Variants[i+1:]...)
				return true
			})
		}
		for i := len(best.Rounds) - 1; i >= 0; i-- {
			step(func(c *pipe.Scenario) bool {
				c.Rounds = append(c.Rounds[:i], c.Rounds[i+1:]...)
				return true
			})
		}
		if len(best.Edits) > 0 {
			step(func(c *pipe.Scenario) bool { c.Edits = nil; return true })
		}
		for i := len(best.Cmds) - 1; i >= 0; i-- {
			step(func(c *pipe.Scenario) bool {
				if len(c.Cmds) < 2 {
					return false
				}
				c.Cmds = append(c.Cmds[:i], c.Cmds[i+1:]...)
				fix := func(k []simrt.Kill) []simrt.Kill {
					var l []simrt.Kill
					for _, x := range k {
						if x.Cmd == i {
							continue
						}
						if x.Cmd > i {
							x.Cmd--
						}
						l = append(l, x)
					}
					return l
				}
				c.Cfg.Kills = fix(c.Cfg.Kills)
				return true
			})
		}
		configs := func(c *pipe.Scenario) []*simrt.Config {
			l := []*simrt.Config{&c.Cfg}
			for i := range c.Rounds {
				l = append(l, &c.Rounds[i])
			}
			for i := range c.Variants {
				l = append(l, &c.Variants[i].Cfg)
			}
			return l
		}
		for i := range configs(best) {
			cf := func(f func(c *simrt.Config) bool) {
				step(func(c *pipe.Scenario) bool { return f(configs(c)[i]) })
			}
			for k := len(configs(best)[i].Faults) - 1; k >= 0; k-- {
				cf(func(c *simrt.Config) bool { c.Faults = append(c.Faults[:k], c.Faults[k+1:]...); return true })
			}
			for k := range configs(best)[i].Faults {
				cf(func(c *simrt.Config) bool { x := c.Faults[k].Sticky; c.Faults[k].Sticky = false; return x })
			}
			for k := len(configs(best)[i].Kills) - 1; k >= 0; k-- {
				cf(func(c *simrt.Config) bool { c.Kills = append(c.Kills[:k], c.Kills[k+1:]...); return true })
			}
			for k := len(configs(best)[i].Clang) - 1; k >= 0; k-- {
				cf(func(c *simrt.Config) bool { c.Clang = append(c.Clang[:k], c.Clang[k+1:]...); return true })
			}
			cf(func(c *simrt.Config) bool { x := c.Quota; c.Quota = 0; return x != 0 })
			cf(func(c *simrt.Config) bool { x := c.Chunk; c.Chunk = 0; return x != 0 })
			cf(func(c *simrt.Config) bool { x := c.Map; c.Map = 0; return x != 0 })
			cf(func(c *simrt.Config) bool { x := c.Host; c.Host = 0; return x != 0 })
			for _, sw := range []int{1 << 30, 1000, 100, 20, 5} {
				cf(func(c *simrt.Config) bool {
					if len(best.Cmds) < 2 && len(best.Variants) == 0 || c.Switch >= sw {
						return false
					}
					c.Switch = sw
					return true
				})
			}
		}
		commands := func(c *pipe.Scenario) []*pipe.Cmd {
			var l []*pipe.Cmd
			for i := range c.Cmds {
				l = append(l, &c.Cmds[i])
			}
			for i := range c.Variants {
				for j := range c.Variants[i].Cmds {
					l = append(l, &c.Variants[i].Cmds[j])
				}
			}
			return l
		}
		for i := range commands(best) {
			cf := func(f func(c *pipe.Cmd) bool) {
				step(func(c *pipe.Scenario) bool {
					x := commands(c)[i]
					if !f(x) {
						return false
					}
					x.Line = "blang " + strings.Join(x.Args(), " ")
					return true
				})
			}
			cf(func(c *pipe.Cmd) bool { x := c.Style; c.Style = 0; return x != 0 })
			for k := len(commands(best)[i].Inputs) - 1; k >= 0; k-- {
				cf(func(c *pipe.Cmd) bool {
					if len(c.Inputs) < 2 {
						return false
					}
					c.Inputs = append(c.Inputs[:k], c.Inputs[k+1:]...)
					return true
				})
			}
			cf(func(c *pipe.Cmd) bool { x := c.Debug; c.Debug = false; return x })
			cf(func(c *pipe.Cmd) bool { x := c.Verbose; c.Verbose = false; return x })
			cf(func(c *pipe.Cmd) bool { x := c.Save; c.Save = false; return x })
			cf(func(c *pipe.Cmd) bool { x := c.Opt; c.Opt = 0; return x != 0 })
			cf(func(c *pipe.Cmd) bool { x := len(c.Dirs); c.Dirs = nil; return x != 0 })
			cf(func(c *pipe.Cmd) bool { x := len(c.Libs); c.Libs = nil; return x != 0 })
			if best.Property != "C20" && best.Property != "C11" {
				cf(func(c *pipe.Cmd) bool { x := c.Out; c.Out = ""; return x != "" && len(c.Inputs) == 1 })
			}
		}
		for i := len(best.Files) - 1; i >= 0; i-- {
			step(func(c *pipe.Scenario) bool {
				if len(c.Files) < 2 || i >= len(c.Files) || c.Property == "C17" && i == 0 || needed(c, c.Files[i].Path) {
					return false
				}
				c.Files = append(c.Files[:i], c.Files[i+1:]...)
				return true
			})
		}
		for i := range best.Files {
			f := &best.Files[i]
			if f.Dir || !strings.HasSuffix(f.Path, ".b") {
				continue
			}
			if s.Property != "C18" {
				step(func(c *pipe.Scenario) bool {
					x := c.Files[i].Text
					c.Files[i].Text, c.Files[i].Hex = "main() { }\n", ""
					return x != c.Files[i].Text
				})
			}
			if s.Property == "C18" || s.Property == "C17" || s.Property == "C16" || s.Property == "C20" || s.Property == "C10" {
				shrink(best.Files[i].Bytes(), func(b []byte) bool {
					return edit(func(c *pipe.Scenario) bool { pipe.SetBytes(&c.Files[i], b); return true })
				}, end)
			}
		}
		if !changed {
			break
		}
	}
	return best
}

func needed(c *pipe.Scenario, p string) bool {
	if p == simrt.ClangPath || strings.HasSuffix(p, "/libb.a") {
		return true
	}
	for i := range c.Cmds {
		for _, in := range c.Cmds[i].Inputs {
			if c.Cmds[i].Abs(in) == p {
				return true
			}
		}
	}
	return false
}

// shrink removes pieces of the bytes while keep agrees.
func shrink(b []byte, keep func([]byte) bool, end time.Time) {
	for size := len(b) / 2; size > 0; {
		any := false
		for at := 0; at < len(b) && time.Now().Before(end); {
			n := min(size, len(b)-at)
			c := append(append([]byte{}, b[:at]...), b[at+n:]...)
			if keep(c) {
				b = c
				any = true
			} else {
				at += n
			}
		}
		if !any || size == 1 {
			if size == 1 && !any {
				return
			}
			if size > 1 {
				size /= 2
			}
		}
		if time.Now().After(end) {
			return
		}
	}
}

func copyOf(s *pipe.Scenario) *pipe.Scenario {
	b, err := json.Marshal(s)
	if err != nil {
		panic(fmt.Sprint(err))
	}
	c := new(pipe.Scenario)
	if err := json.Unmarshal(b, c); err != nil {
		panic(fmt.Sprint(err))
	}
	return c
}
