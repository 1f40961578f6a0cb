// Package ev writes evidence and replay files and reports violations.
package ev

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// Violation is one violation found.
type Violation struct {
	Class  string // kind of violation
	Key    string // what a known finding is identified by
	Detail string
	Replay string
}

// Report is the outcome of a check.
type Report struct {
	Property    string
	Coverage    map[string]any
	Assumptions []string
	Violations  []Violation
}

// Known is a recorded finding.
type Known struct{ Property, Class, Key, Text string }

// LoadKnown reads the findings file; "fixed:" lines suppress nothing.
func LoadKnown(verif string) ([]Known, error) {
	f, err := os.Open(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var l []Known
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		rest, ok := strings.CutPrefix(strings.TrimSpace(sc.Text()), "finding:")
		if !ok {
			continue
		}
		var k Known
		var words []string
		for _, w := range strings.Fields(rest) {
			name, val, has := strings.Cut(w, "=")
			switch {
			case has && name == "property" && k.Property == "":
				k.Property = val
			case has && name == "class" && k.Class == "":
				k.Class = val
			case has && name == "key" && k.Key == "":
				k.Key = val
			default:
				words = append(words, w)
			}
		}
		k.Text = strings.Join(words, " ")
		l = append(l, k)
	}
	return l, sc.Err()
}

// WriteReplay stores a replay file and returns its path.
func WriteReplay(verif, prop string, seed uint64, b []byte) (string, error) {
	dir := filepath.Join(verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", prop, seed))
	return p, os.WriteFile(p, b, 0o644)
}

// Finish writes the evidence, prints the verdict lines and returns the exit status.
func Finish(verif, tier string, seed uint64, wall float64, r *Report) (int, error) {
	known, err := LoadKnown(verif)
	if err != nil {
		return 3, err
	}
	code, count := 0, 0
	for _, v := range r.Violations {
		var k *Known
		for i := range known {
			if known[i].Property == r.Property && known[i].Class == v.Class && known[i].Key == v.Key {
				k = &known[i]
			}
		}
		if k != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Property, k.Text)
			continue
		}
		count++
		code = 1
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, v.Replay)
		fmt.Printf("  %s: %s\n", v.Class, v.Detail)
	}
	e := map[string]any{
		"property": r.Property, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": r.Coverage, "assumptions": r.Assumptions, "wall_s": wall, "violations": count,
	}
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		return 3, err
	}
	dir := filepath.Join(verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return 3, err
	}
	if err := os.WriteFile(filepath.Join(dir, r.Property+".json"), append(b, '\n'), 0o644); err != nil {
		return 3, err
	}
	return code, nil
}
