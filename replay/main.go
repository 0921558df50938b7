// replay searches for a concrete input on which the code in /repo breaks a property.
// It is run only after a contract obligation failed, to turn the failed obligation into a
// failing input. usage: replay Cxx seed seconds
package main

import (
	"fmt"
	"io"
	"log"
	"os"
	"strconv"
	"strings"
	"time"
)

type search struct {
	seed     int64
	deadline time.Time
	hints    string // text of the failed obligations
}

func (s *search) more() bool { return time.Now().Before(s.deadline) }

// found prints the failing input and exits.
func found(f string, a ...interface{}) {
	fmt.Fprintln(out, "FOUND")
	fmt.Fprintf(out, f+"\n", a...)
	os.Exit(1)
}

// guard runs f and returns the panic it raised, if any.
func guard(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// guardTime also gives up after d.
func guardTime(d time.Duration, f func()) (p interface{}, timeout bool) {
	ch := make(chan interface{}, 1)
	go func() { ch <- guard(f) }()
	select {
	case p = <-ch:
		return p, false
	case <-time.After(d):
		return nil, true
	}
}

var searches = map[string]func(*search){}

var out = os.Stdout

func main() {
	// the code under test may print
	log.SetOutput(io.Discard)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout, os.Stderr = null, null
	}
	loadGrammar()
	s := &search{seed: 1, deadline: time.Now().Add(20 * time.Second)}
	if len(os.Args) > 2 {
		s.seed, _ = strconv.ParseInt(os.Args[2], 10, 64)
	}
	if len(os.Args) > 3 {
		n, _ := strconv.Atoi(os.Args[3])
		s.deadline = time.Now().Add(time.Duration(n) * time.Second)
	}
	if len(os.Args) > 4 {
		s.hints = strings.Join(os.Args[4:], "\n")
	}
	f := searches[os.Args[1]]
	if f == nil {
		fmt.Fprintln(out, "NOSEARCH")
		return
	}
	f(s)
	fmt.Fprintln(out, "NONE")
}
