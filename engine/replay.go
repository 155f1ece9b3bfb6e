package main

// Native replay: solver models are executed against the real code, compiled from /repo's working tree
// with the harness files added through a build overlay.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type Replayer struct {
	dir  string
	bin  string
	err  error
	done chan bool
	once sync.Once
	race bool // build with the race detector
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "TZ=UTC")
}

func NewReplayer(repo string, hfiles map[string]string, harnesses []string) *Replayer {
	r := &Replayer{done: make(chan bool)}
	for _, h := range harnesses {
		r.race = r.race || strings.HasPrefix(h, "vzC90_")
	}
	dir, err := os.MkdirTemp("", "vzreplay")
	if err != nil {
		r.err = err
		close(r.done)
		return r
	}
	r.dir = dir
	go func() {
		defer close(r.done)
		r.bin = filepath.Join(dir, "replay.bin")
		var sb strings.Builder
		sb.WriteString("//go:build go1.21\n\npackage gotables\n\nvar VzRegistry = map[string]func(){\n")
		for _, h := range harnesses {
			fmt.Fprintf(&sb, "\t%q: %s,\n", h, h)
		}
		sb.WriteString("}\n")
		reg := filepath.Join(dir, "reg.go")
		os.WriteFile(reg, []byte(sb.String()), 0o644)
		mainf := filepath.Join(dir, "main.go")
		os.WriteFile(mainf, []byte("package main\n\nimport \""+repoPath+"\"\n\nfunc main() { gotables.VzReplayMain(gotables.VzRegistry) }\n"), 0o644)
		rep := map[string]string{}
		for n, f := range hfiles {
			rep[filepath.Join(repo, n)] = f
		}
		rep[filepath.Join(repo, "zz_verif_reg.go")] = reg
		rep[filepath.Join(repo, "zzvzmain", "main.go")] = mainf
		ob, _ := json.Marshal(map[string]interface{}{"Replace": rep})
		ov := filepath.Join(dir, "overlay.json")
		os.WriteFile(ov, ob, 0o644)
		for _, f := range []string{"go.mod", "go.sum"} {
			b, _ := os.ReadFile(filepath.Join(repo, f))
			os.WriteFile(filepath.Join(dir, f), b, 0o644)
		}
		args := []string{"build"}
		if r.race {
			args = append(args, "-race")
		}
		cmd := exec.Command("go", append(args, "-modfile", filepath.Join(dir, "go.mod"), "-overlay", ov, "-o", r.bin, "./zzvzmain")...)
		cmd.Dir = repo
		cmd.Env = goEnv()
		if r.race {
			cmd.Env = append(cmd.Env, "CGO_ENABLED=1") // the race detector's run time needs it
		}
		out, err := cmd.CombinedOutput()
		if err != nil {
			r.err = fmt.Errorf("replay build: %v: %s", err, out)
		}
	}()
	return r
}

func (r *Replayer) Close() {
	<-r.done
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

type replayItem struct {
	Id      int               `json:"id"`
	Harness string            `json:"harness"`
	Vals    map[string]uint64 `json:"values"`
	Repeat  int               `json:"repeat"`
	Tier    int               `json:"tier"`
}

type replayResult struct {
	Id    int      `json:"id"`
	Trace []string `json:"trace"`
	Fails []string `json:"fails"`
	Panic string   `json:"panic"`
	Stop  string   `json:"stop"`
}

// Run replays all items; a crash of the process is attributed to the item that was running.
func (r *Replayer) Run(items []replayItem) (map[int]replayResult, error) {
	<-r.done
	if r.err != nil {
		return nil, r.err
	}
	res := map[int]replayResult{}
	for round := 0; len(items) > 0 && round < 60; round++ {
		in, out := filepath.Join(r.dir, fmt.Sprintf("in%d.json", round)), filepath.Join(r.dir, fmt.Sprintf("out%d.json", round))
		b, _ := json.Marshal(items)
		os.WriteFile(in, b, 0o644)
		cmd := exec.Command(r.bin, in, out)
		cmd.Dir = r.dir
		cmd.Env = append(goEnv(), "GOMEMLIMIT=4GiB", "GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=5 exitcode=0 log_path="+filepath.Join(r.dir, "race"))
		stopped := make(chan bool)
		if err := cmd.Start(); err != nil {
			return res, err
		}
		go func() {
			select {
			case <-stopped:
			case <-time.After(180 * time.Second):
				cmd.Process.Kill()
			}
		}()
		werr := cmd.Wait()
		close(stopped)
		f, err := os.Open(out)
		if err == nil {
			sc := bufio.NewScanner(f)
			sc.Buffer(make([]byte, 1<<20), 1<<26)
			for sc.Scan() {
				var x replayResult
				if json.Unmarshal(sc.Bytes(), &x) == nil {
					res[x.Id] = x
				}
			}
			f.Close()
		}
		var rest []replayItem
		for _, it := range items {
			if _, ok := res[it.Id]; !ok {
				rest = append(rest, it)
			}
		}
		if len(rest) == 0 {
			break
		}
		if werr == nil && len(rest) == len(items) {
			return res, fmt.Errorf("replay produced no results")
		}
		if ee, ok := werr.(*exec.ExitError); ok && ee.ExitCode() != 4 {
			res[rest[0].Id] = replayResult{Id: rest[0].Id, Panic: "process died: " + werr.Error()}
			rest = rest[1:]
		}
		items = rest
	}
	return res, nil
}

func sameTrace(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !strings.HasSuffix(a[i], "=?") {
			return false
		}
	}
	return true
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
