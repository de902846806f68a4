package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// On the thorough tier every query that z3 answered with unsat, which is what proofs rest on, is put to cvc5 as well.
type crossChecker struct {
	ch                                    chan string
	wg                                    sync.WaitGroup
	mu                                    sync.Mutex
	asked, confirmed, unknown, notReached int
	against                               []string
	seen                                  map[string]bool
	deadline                              time.Time
}

func newCrossChecker(workers int, limit time.Duration) *crossChecker {
	c := &crossChecker{ch: make(chan string, 1<<20), seen: map[string]bool{}, deadline: time.Now().Add(limit)}
	for i := 0; i < workers; i++ {
		c.wg.Add(1)
		go c.work()
	}
	return c
}

func (c *crossChecker) add(script string) {
	if c.seen[script] {
		return
	}
	c.seen[script] = true
	select {
	case c.ch <- script:
	default:
		c.notReached++
	}
}

func (c *crossChecker) work() {
	defer c.wg.Done()
	var cmd *exec.Cmd
	var in io.WriteCloser
	var out *bufio.Reader
	stop := func() {
		if cmd != nil {
			in.Close()
			cmd.Process.Kill()
			cmd.Wait()
			cmd = nil
		}
	}
	defer stop()
	n := 0
	for s := range c.ch {
		if time.Now().After(c.deadline) {
			c.mu.Lock()
			c.notReached++
			c.mu.Unlock()
			continue
		}
		if n++; n%2000 == 0 {
			stop() // it keeps what it declared
		}
		if cmd == nil {
			cmd = exec.Command("cvc5", "-q", "--incremental", "--lang", "smt2", "--tlimit-per=2000")
			in, _ = cmd.StdinPipe()
			p, _ := cmd.StdoutPipe()
			out = bufio.NewReader(p)
			if cmd.Start() != nil {
				cmd = nil
				c.mu.Lock()
				c.notReached++
				c.mu.Unlock()
				continue
			}
			io.WriteString(in, "(set-logic ALL)\n")
		}
		io.WriteString(in, "(push)\n"+s+"(check-sat)\n(pop)\n")
		line, err := out.ReadString('\n')
		line = strings.TrimSpace(line)
		if err != nil || line != "sat" && line != "unsat" {
			stop()
		}
		c.mu.Lock()
		c.asked++
		switch line {
		case "unsat":
			c.confirmed++
		case "sat":
			c.against = append(c.against, s)
		default:
			c.unknown++
		}
		c.mu.Unlock()
	}
}

func (c *crossChecker) finish(ctx *Ctx) {
	close(c.ch)
	c.wg.Wait()
	ctx.ob(len(c.against) == 0, "solvers-agree", "cvc5 finds a model where z3 finds none: %d queries, the first: %s", len(c.against), strings.Join(c.against, "\n---\n"))
}

func (c *crossChecker) String() string {
	return fmt.Sprintf("cvc5 confirmed %d of %d distinct unsat answers (%d undecided within 2 s, %d disagree, %d not put to it)", c.confirmed, c.asked+c.notReached, c.unknown, len(c.against), c.notReached)
}

var cross *crossChecker
