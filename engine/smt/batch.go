package smt

import (
	"fmt"
	"io"
	"strings"
	"time"
)

// Batch decides many small independent queries in one exchange.
func (s *Solver) Batch(qs []*Query, timeout time.Duration) []Result {
	out := make([]Result, len(qs))
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return out
		}
	}
	t0 := time.Now()
	var sb strings.Builder
	fmt.Fprintf(&sb, "(reset)\n(set-option :timeout %d)\n", timeout.Milliseconds())
	for _, q := range qs {
		sb.WriteString("(push)\n")
		sb.WriteString(q.Decls)
		sb.WriteString("(check-sat)\n(pop)\n(echo \"--next\")\n")
	}
	cmd := s.cmd
	watchdog := time.AfterFunc(timeout*time.Duration(len(qs))+10*time.Second, func() { cmd.Process.Kill() })
	defer watchdog.Stop()
	go func(in io.WriteCloser, str string) { io.WriteString(in, str) }(s.in, sb.String())
	bad := false
	for i := 0; i < len(qs); {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			break
		}
		line = strings.TrimSpace(line)
		switch {
		case strings.Trim(line, "\"") == "--next":
			if bad {
				out[i] = Unknown
			}
			bad = false
			i++
		case line == "sat":
			out[i] = Sat
		case line == "unsat":
			out[i] = Unsat
		case strings.HasPrefix(line, "(error"):
			bad = true
		}
	}
	dt := time.Since(t0)
	s.Stats.Lock()
	s.Stats.Time += dt
	s.Stats.Queries += len(qs)
	for _, r := range out {
		switch r {
		case Sat:
			s.Stats.Sat++
		case Unsat:
			s.Stats.Unsat++
		default:
			s.Stats.Unknown++
		}
	}
	s.Stats.Unlock()
	return out
}
