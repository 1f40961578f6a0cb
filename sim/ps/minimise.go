package ps

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"vsim/bl"
	"vsim/kern"
	"vsim/pt"
)

// signature keeps a minimised build failure the same failure.
func signature(class, detail string) string {
	if class != "build" {
		return class
	}
	for _, m := range []string{"blang: error: ", "error: ", "did not end"} {
		if i := strings.LastIndex(detail, m); i >= 0 {
			s := detail[i+len(m):]
			var b strings.Builder
			for _, c := range s {
				if c >= 'a' && c <= 'z' || c == ' ' {
					b.WriteRune(c)
				} else if b.Len() > 12 {
					break
				}
			}
			return class + ":" + clip(b.String(), 16)
		}
	}
	return class
}

func (c *Case) clone() *Case {
	d := *c
	d.Prog = c.Prog.Clone()
	e := *c.Env
	e.In = map[int]*kern.In{}
	e.Out = map[int]*kern.Out{}
	for k, v := range c.Env.In {
		x := *v
		x.Cuts = append([]int(nil), v.Cuts...)
		x.Events = append([]kern.Event(nil), v.Events...)
		e.In[k] = &x
	}
	for k, v := range c.Env.Out {
		x := *v
		x.Cuts = append([]int(nil), v.Cuts...)
		x.Events = append([]kern.Event(nil), v.Events...)
		e.Out[k] = &x
	}
	d.Env = &e
	d.Text = nil
	d.Routes = append([]Route(nil), c.Routes...)
	return &d
}

// nodes lists all nodes of the program in a fixed order, with a setter.
type site struct {
	n   *bl.Node
	set func(*bl.Node)
}

func sites(p *bl.Program) []site {
	var l []site
	var walk func(n *bl.Node)
	walk = func(n *bl.Node) {
		for i := range n.Kids {
			i := i
			l = append(l, site{n.Kids[i], func(m *bl.Node) { n.Kids[i] = m }})
			walk(n.Kids[i])
		}
	}
	for _, t := range p.Tops {
		if t.F != nil {
			f := t.F
			l = append(l, site{f.Body, func(m *bl.Node) { f.Body = m }})
			walk(f.Body)
		}
	}
	return l
}

func reductions(c *Case, phase int) []func(*Case) bool {
	var l []func(*Case) bool
	switch phase {
	case 0: // definitions
		for i := range c.Prog.Tops {
			i := i
			l = append(l, func(d *Case) bool {
				if f := d.Prog.Tops[i].F; f != nil && f.Name == "main" {
					return false
				}
				d.Prog.Tops = append(d.Prog.Tops[:i:i], d.Prog.Tops[i+1:]...)
				return true
			})
		}
	case 1: // runs of statements
		for k, s := range sites(c.Prog) {
			if s.n.K != bl.Block || len(s.n.Kids) == 0 {
				continue
			}
			n := len(s.n.Kids)
			for w := n; w >= 1; w /= 2 {
				for at := 0; at+w <= n; at += w {
					k, at, w := k, at, w
					l = append(l, func(d *Case) bool {
						b := sites(d.Prog)[k].n
						b.Kids = append(append([]*bl.Node{}, b.Kids[:at]...), b.Kids[at+w:]...)
						return true
					})
				}
			}
		}
	case 2: // structure
		for k, s := range sites(c.Prog) {
			k := k
			if !s.n.IsStmt() {
				continue
			}
			if s.n.K != bl.Null && s.n.K != bl.Auto && s.n.K != bl.Extrn {
				l = append(l, func(d *Case) bool { sites(d.Prog)[k].set(&bl.Node{K: bl.Null}); return true })
			}
			for j, kid := range s.n.Kids {
				if kid.IsStmt() {
					j := j
					l = append(l, func(d *Case) bool { t := sites(d.Prog)[k]; t.set(t.n.Kids[j]); return true })
				}
			}
			if s.n.K == bl.If && len(s.n.Kids) == 3 {
				l = append(l, func(d *Case) bool { t := sites(d.Prog)[k]; t.n.Kids = t.n.Kids[:2]; return true })
			}
			if (s.n.K == bl.Auto && len(s.n.Kids) > 1) || (s.n.K == bl.Extrn && len(s.n.Names) > 1) {
				m := len(s.n.Kids) + len(s.n.Names)
				for j := 0; j < m; j++ {
					j := j
					l = append(l, func(d *Case) bool {
						t := sites(d.Prog)[k].n
						if t.K == bl.Auto {
							t.Kids = append(append([]*bl.Node{}, t.Kids[:j]...), t.Kids[j+1:]...)
						} else {
							t.Names = append(append([]string{}, t.Names[:j]...), t.Names[j+1:]...)
						}
						return true
					})
				}
			}
		}
	case 3: // expressions
		for k, s := range sites(c.Prog) {
			k := k
			if s.n.IsStmt() || s.n.K == bl.Decl {
				continue
			}
			for j, kid := range s.n.Kids {
				if !kid.IsStmt() {
					j := j
					l = append(l, func(d *Case) bool { t := sites(d.Prog)[k]; t.set(t.n.Kids[j]); return true })
				}
			}
			if s.n.K == bl.Call && len(s.n.Kids) > 1 {
				l = append(l, func(d *Case) bool { t := sites(d.Prog)[k].n; t.Kids = t.Kids[:len(t.Kids)-1]; return true })
			}
			if s.n.K == bl.Str && len(s.n.Str) > 0 {
				for _, h := range []int{0, len(s.n.Str) / 2, len(s.n.Str) - 1} {
					h := h
					l = append(l, func(d *Case) bool { t := sites(d.Prog)[k].n; t.Str = t.Str[:h]; return true })
				}
			}
			if s.n.K != bl.Num || s.n.Aux != 0 || s.n.Val < 0 || s.n.Val > 3 {
				for _, v := range []int64{0, 1, 2} {
					v := v
					l = append(l, func(d *Case) bool { sites(d.Prog)[k].set(bl.N(v)); return true })
				}
			}
		}
	case 4: // globals, parameters
		for i, t := range c.Prog.Tops {
			i := i
			if t.G != nil && len(t.G.Inits) > 0 {
				l = append(l, func(d *Case) bool {
					g := d.Prog.Tops[i].G
					g.Inits = g.Inits[:len(g.Inits)-1]
					return true
				})
			}
			if t.F != nil && len(t.F.Params) > 0 {
				l = append(l, func(d *Case) bool {
					f := d.Prog.Tops[i].F
					f.Params = f.Params[:len(f.Params)-1]
					return true
				})
			}
		}
	case 5: // environment, layout and routes
		add := func(f func(*Case)) { l = append(l, func(d *Case) bool { f(d); return true }) }
		if c.Style != 0 {
			add(func(d *Case) { d.Style = 0 })
		}
		if c.Env.Junk != 0 {
			add(func(d *Case) { d.Env.Junk = 0 })
		}
		if c.Env.Pad != 0 {
			add(func(d *Case) { d.Env.Pad = 0 })
		}
		for fd, in := range c.Env.In {
			fd := fd
			if fd > 0 {
				add(func(d *Case) { delete(d.Env.In, fd) })
			}
			if len(in.Cuts) > 0 || in.Period > 0 {
				add(func(d *Case) { d.Env.In[fd].Cuts = nil })
				add(func(d *Case) { d.Env.In[fd].Period = 0 })
			}
			for j := range in.Events {
				j := j
				add(func(d *Case) {
					e := d.Env.In[fd].Events
					d.Env.In[fd].Events = append(append([]kern.Event{}, e[:j]...), e[j+1:]...)
				})
			}
			if in.End != 0 {
				add(func(d *Case) { d.Env.In[fd].End = 0 })
			}
			if n := len(in.Data); n > 0 {
				for _, h := range []int{0, n / 2, n - 1} {
					h := h
					add(func(d *Case) { d.Env.In[fd].Data = d.Env.In[fd].Data[:h] })
				}
			}
		}
		for fd, o := range c.Env.Out {
			fd := fd
			if fd > 2 || fd == 0 {
				add(func(d *Case) { delete(d.Env.Out, fd) })
			}
			if len(o.Cuts) > 0 {
				add(func(d *Case) { d.Env.Out[fd].Cuts = nil })
			}
			if o.Period > 0 {
				add(func(d *Case) { d.Env.Out[fd].Period = 0 })
			}
			if o.ErrOff >= 0 {
				add(func(d *Case) { d.Env.Out[fd].ErrOff = -1 })
			}
			if len(o.Events) > 0 {
				add(func(d *Case) { d.Env.Out[fd].Events = nil })
			}
		}
		for i := range c.Routes {
			i := i
			if c.Routes[i].G {
				add(func(d *Case) { d.Routes[i].G = false })
			}
			if c.Routes[i].Late {
				add(func(d *Case) { d.Routes[i].Late = false })
			}
			if c.Routes[i].Opt != "" {
				add(func(d *Case) { d.Routes[i].Opt = "" })
			}
		}
	}
	return l
}

// Minimise shrinks a failing case while it keeps failing in the same way.
func (t *Tools) Minimise(c *Case, workers int, deadline time.Time) *Case {
	sig := signature(c.Class, c.Detail)
	type job struct {
		d    *Case
		idx  int
		res  chan bool
		skip bool
	}
	jobs := make(chan *job)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			pt.Prepare()
			for j := range jobs {
				if time.Now().After(deadline) {
					j.res <- false
					continue
				}
				cl, det, inv, err := t.Evaluate(j.d, filepath.Join(t.Dir, fmt.Sprintf("m%d", w)))
				ok := err == nil && !inv && cl != "" && signature(cl, det) == sig
				if ok {
					j.d.Class, j.d.Detail = cl, det
				}
				j.res <- ok
			}
		}(w)
	}
	cur := c.clone()
	cur.Detail = c.Detail
	cur.render()
	for round := 0; round < 6; round++ {
		progress := false
		for phase := 0; phase <= 5; phase++ {
			pos := 0
			for time.Now().Before(deadline) {
				rs := reductions(cur, phase)
				if pos >= len(rs) {
					break
				}
				// try the next few in parallel
				var batch []*job
				for ; pos < len(rs) && len(batch) < workers; pos++ {
					d := cur.clone()
					if !rs[pos](d) || d.Prog.Size() > cur.Prog.Size() {
						continue
					}
					if _, err := d.ref(); err != nil {
						continue
					}
					d.render()
					batch = append(batch, &job{d: d, idx: pos, res: make(chan bool, 1)})
				}
				go func(b []*job) {
					for _, j := range b {
						jobs <- j
					}
				}(batch)
				var hit *job
				for _, j := range batch {
					if <-j.res && hit == nil {
						hit = j
					}
				}
				if hit != nil {
					cur = hit.d
					pos = hit.idx
					progress = true
				}
			}
		}
		if !progress || time.Now().After(deadline) {
			break
		}
	}
	close(jobs)
	wg.Wait()
	return cur
}
