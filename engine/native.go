package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// NativeResult is what the compiled harness reports for one set of inputs.
type NativeResult struct {
	Failed  []string    `json:"failed"`
	Panic   string      `json:"panic"`
	Assumed bool        `json:"assumed"`
	Race    bool        `json:"race"`
	Obs     [][2]string `json:"obs"`
	Error   string      `json:"error,omitempty"`
}

type nativeJob struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Tier    string            `json:"tier"`
}

// Native is the harness compiled by the ordinary toolchain against the same tree.
type Native struct {
	bin string
	dir string
}

func buildNative(harnessDir, modfile, cacheDir string, names []string, race bool) (*Native, error) {
	dir, err := os.MkdirTemp(cacheDir, "native")
	if err != nil {
		return nil, err
	}
	n := &Native{dir: dir, bin: filepath.Join(dir, "native")}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"verifharness/h\"\n\t\"verifharness/v\"\n)\n\nfunc main() {\n\tv.Main(map[string]func(){\n")
	for _, nm := range names {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", nm, nm)
	}
	sb.WriteString("\t})\n}\n")
	gen := filepath.Join(dir, "main.go")
	if err := os.WriteFile(gen, []byte(sb.String()), 0o644); err != nil {
		return nil, err
	}
	ov, _ := json.Marshal(map[string]map[string]string{"Replace": {filepath.Join(harnessDir, "cmd/native/main.go"): gen}})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return nil, err
	}
	args := []string{"build", "-mod=mod", "-overlay", ovf, "-o", n.bin}
	if modfile != "" {
		args = append(args, "-modfile="+modfile)
	}
	cgo := "CGO_ENABLED=0"
	if race {
		args = append(args, "-race")
		cgo = "CGO_ENABLED=1"
	}
	args = append(args, "./cmd/native")
	cmd := exec.Command("go", args...)
	cmd.Dir = harnessDir
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOWORK=off", "GOPROXY=off", "GOSUMDB=off", cgo)
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.Close()
		return nil, fmt.Errorf("native build: %v\n%s", err, out)
	}
	return n, nil
}

func (n *Native) Close() { os.RemoveAll(n.dir) }

// runBatch runs the jobs in one process; a crash is attributed to the first job without an answer.
func (n *Native) runBatch(jobs []nativeJob) ([]NativeResult, error) {
	var res []NativeResult
	for len(res) < len(jobs) {
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, j := range jobs[len(res):] {
			if err := enc.Encode(j); err != nil {
				return nil, err
			}
		}
		cmd := exec.Command(n.bin)
		cmd.Stdin = &in
		cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0")
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var err error
		select {
		case err = <-done:
		case <-time.After(120 * time.Second):
			cmd.Process.Kill()
			<-done
			err = fmt.Errorf("timeout")
		}
		before := len(res)
		sc := bufio.NewScanner(&out)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var r NativeResult
			if json.Unmarshal(sc.Bytes(), &r) == nil && len(res) < len(jobs) {
				res = append(res, r)
			}
		}
		race := strings.Contains(errb.String(), "DATA RACE") || strings.Contains(errb.String(), "fatal error: concurrent map")
		if race {
			for i := before; i < len(res); i++ {
				res[i].Race = true // batches are run one by one when looking for races
			}
		}
		if len(res) < len(jobs) {
			e := errb.String()
			if len(e) > 800 {
				e = e[:800]
			}
			res = append(res, NativeResult{Error: fmt.Sprintf("process died: %v: %s", err, e), Race: race})
		}
	}
	return res, nil
}
