package kit

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
)

type shardResult struct {
	Evals, States, Transitions, Traces, Distinct, Flaky int64
	Suspect                                             string
	Outcomes, Parts                                     map[string]int64
	Samples                                             []interface{}
	Violations                                          []violation
	Known                                               map[string]string
	Truncated                                           map[string]bool
}

func (c *C) writeShard() {
	r := shardResult{
		Evals: c.evals, States: c.states, Transitions: c.transitions, Traces: c.traces, Distinct: int64(len(c.distinct)),
		Flaky: c.flaky, Suspect: c.suspect, Outcomes: c.outcomes, Parts: c.parts, Samples: c.samples, Violations: c.violations,
		Known: c.knownHit, Truncated: c.truncated,
	}
	b, err := json.Marshal(r)
	if err == nil {
		err = os.WriteFile(c.shardOut, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// runShards runs one process per shard and merges what they report.
func (c *C) runShards() {
	dir, err := os.MkdirTemp("", "verif-shards-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	n := c.Procs
	var wg sync.WaitGroup
	errs := make([]error, n)
	outs := make([][]byte, n)
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], os.Args[1:]...)
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SHARD=%d/%d", i, n),
				"VERIF_SHARD_OUT="+filepath.Join(dir, fmt.Sprint(i)))
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL} // do not outlive this process
			outs[i], errs[i] = cmd.CombinedOutput()
		}()
	}
	wg.Wait()
	for i := 0; i < n; i++ {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprint(i)))
		if err != nil || errs[i] != nil {
			out := string(outs[i])
			if strings.Contains(out, "fatal error:") || strings.Contains(out, "panic:") || strings.Contains(out, "SIGSEGV") {
				if len(out) > 4000 {
					out = out[:4000]
				}
				c.report(fmt.Sprintf("process-crash shard %d/%d", i, n), "the process crashed:\n"+out)
				continue
			}
			fmt.Fprintf(os.Stderr, "shard %d failed: %v\n%s\n", i, errs[i], out)
			os.Exit(2)
		}
		var r shardResult
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.evals += r.Evals
		c.states += r.States
		c.transitions += r.Transitions
		c.traces += r.Traces
		c.distinctN += r.Distinct
		c.flaky += r.Flaky
		if c.suspect == "" {
			c.suspect = r.Suspect
		}
		for k, v := range r.Outcomes {
			c.outcomes[k] += v
		}
		for k, v := range r.Parts {
			// Every shard counts all cases of a part.
			if v > c.parts[k] {
				c.parts[k] = v
			}
		}
		for _, s := range r.Samples {
			if len(c.samples) < 12 {
				c.samples = append(c.samples, s)
			}
		}
		for k, v := range r.Known {
			c.knownHit[k] = v
		}
		for k := range r.Truncated {
			c.truncated[k] = true
		}
		for _, v := range r.Violations {
			c.report(v.Key, v.Detail)
		}
	}
}
