package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// replaySearch looks for a concrete input that breaks the property on the code in repoDir,
// guided by the failed obligations. It never decides a property: it only runs after an
// obligation failed, to replay the failure against the real code. "" if none was found.
func replaySearch(prop string, viol []*Obligation, seed int64) string {
	dir := filepath.Join(verifDir(), "replay")
	tmp, err := os.MkdirTemp("", "gover-replay")
	if err != nil {
		return ""
	}
	defer os.RemoveAll(tmp)
	mod := filepath.Join(tmp, "go.mod")
	b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return ""
	}
	text := strings.ReplaceAll(string(b), "=> /repo", "=> "+repoDir)
	text = strings.ReplaceAll(text, "=> ../gspec", "=> "+filepath.Join(verifDir(), "gspec"))
	os.WriteFile(mod, []byte(text), 0644)
	if b, err := os.ReadFile(filepath.Join(dir, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(tmp, "go.sum"), b, 0644)
	}
	bin := filepath.Join(tmp, "replay")
	cmd := exec.Command("go", "build", "-modfile="+mod, "-o", bin, ".")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off")
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Printf("replay: the harness does not build against the code: %s\n", lastLines(string(out), 5))
		return ""
	}
	var hints []string
	for _, o := range viol {
		hints = append(hints, o.Fn+" "+o.Kind+" "+o.Detail)
	}
	hint := strings.Join(hints, "\n")
	if len(hint) > 20000 {
		hint = hint[:20000]
	}
	secs := 60
	run := exec.Command("bash", "-c", "ulimit -v 16000000; exec timeout -k 5 "+fmt.Sprint(secs+60)+" "+bin+" \"$@\"", "replay", prop, fmt.Sprint(seed), fmt.Sprint(secs), hint)
	run.Env = append(os.Environ(), "VERIF_DIR="+verifDir(), "GOMEMLIMIT=8GiB")
	start := time.Now()
	out, _ := run.Output()
	s := string(out)
	if i := strings.Index(s, "FOUND\n"); i >= 0 {
		fmt.Printf("replay: failing input found in %.1fs\n", time.Since(start).Seconds())
		return s[i+len("FOUND\n"):]
	}
	fmt.Printf("replay: no failing input found in %.1fs\n", time.Since(start).Seconds())
	return ""
}

func lastLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[len(ls)-n:]
	}
	return strings.Join(ls, "\n")
}
