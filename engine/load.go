package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Harness is the metadata of one harness function.
type Harness struct {
	Name   string
	Props  []string
	Tier   string // quick: both tiers; thorough: only thorough
	Budget int    // seconds, quick
	Steps  int64
	Bounds []string
	Covers []string
	Opts   map[string]string
	File   string
}

func (h *Harness) has(prop string) bool {
	for _, p := range h.Props {
		if p == prop {
			return true
		}
	}
	return false
}

var (
	repoDir  = envOr("VERIF_REPO", "/repo")
	verifDir = envOr("VERIF_DIR", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

var funcRe = regexp.MustCompile(`^func (H_\w+)\(\)`)
var coverRe = regexp.MustCompile(`nd\.Cover\("([^"]+)"\)`)

// scanHarnesses reads the directives of the harness sources.
func scanHarnesses() ([]*Harness, error) {
	files, _ := filepath.Glob(verifDir + "/harness/h/*.go")
	sort.Strings(files)
	var out []*Harness
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var cur *Harness
		var in *Harness
		for _, l := range strings.Split(string(b), "\n") {
			t := strings.TrimSpace(l)
			switch {
			case strings.HasPrefix(t, "//verif:"):
				cur = &Harness{Tier: "quick", Opts: map[string]string{}, File: f}
				for _, kv := range strings.Fields(t[len("//verif:"):]) {
					k, v, _ := strings.Cut(kv, "=")
					switch k {
					case "prop":
						cur.Props = strings.Split(v, ",")
					case "tier":
						cur.Tier = v
					case "budget":
						cur.Budget, _ = strconv.Atoi(v)
					case "steps":
						cur.Steps, _ = strconv.ParseInt(v, 10, 64)
					default:
						cur.Opts[k] = v
					}
				}
			case strings.HasPrefix(t, "//bounds:") && cur != nil:
				cur.Bounds = append(cur.Bounds, strings.TrimSpace(t[len("//bounds:"):]))
			default:
				if m := funcRe.FindStringSubmatch(l); m != nil && cur != nil {
					cur.Name = m[1]
					out = append(out, cur)
					in = cur
					cur = nil
				} else if strings.HasPrefix(l, "func ") {
					in = nil
				}
				if in != nil {
					for _, m := range coverRe.FindAllStringSubmatch(l, -1) {
						in.Covers = append(in.Covers, m[1])
					}
				}
			}
		}
	}
	return out, nil
}

// overlayFiles maps the virtual paths inside /repo to file contents.
func overlayFiles(hs []*Harness) (map[string][]byte, error) {
	ov := map[string][]byte{}
	add := func(glob, dst string) error {
		fs, _ := filepath.Glob(verifDir + "/harness/" + glob)
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			ov[filepath.Join(repoDir, dst, filepath.Base(f))] = b
		}
		return nil
	}
	for g, d := range map[string]string{
		"nd/*.go": "internal/zzverif/nd", "models/*.go": "internal/zzverif/models",
		"h/*.go": "internal/zzverif/h", "replay/*.go": "internal/zzverif/replay",
		"ref/*.go": "internal/zzverif/ref", "root/*.go": ".", "vsync/*.go": "internal/zzverif/vsync",
	} {
		if err := add(g, d); err != nil {
			return nil, err
		}
	}
	// let the harnesses stand in for the operating system's files
	fs, _ := filepath.Glob(repoDir + "/*.go")
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if !strings.HasSuffix(f, "_test.go") && strings.Contains(string(b), "afero.NewOsFs") {
			ov[f] = []byte(strings.ReplaceAll(string(b), "afero.NewOsFs", "verifOsFs") + "\nvar _ afero.Fs\n")
		}
	}
	var sb strings.Builder
	sb.WriteString("package h\n\n// Harnesses lists every harness.\nvar Harnesses = map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t%q: %s,\n", h.Name, h.Name)
	}
	sb.WriteString("}\n")
	ov[filepath.Join(repoDir, "internal/zzverif/h/zz_registry.go")] = []byte(sb.String())
	return ov, nil
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
}

// loadProgram builds the SSA of the harnesses with the real code from /repo.
func loadProgram(ov map[string][]byte) (*Program, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repoDir,
		Overlay:    ov,
		Env:        goEnv(),
		BuildFlags: []string{"-tags=purego,noasm"},
	}
	pats := []string{"./internal/zzverif/h"}
	if _, ok := ov[filepath.Join(repoDir, "internal/zzverif/models/models.go")]; ok {
		pats = append(pats, "./internal/zzverif/models")
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return newProgram(prog), nil
}

// writeOverlay materialises the overlay for the go command.
func writeOverlay(dir string, ov map[string][]byte) (string, error) {
	rep := map[string]string{}
	i := 0
	for k, b := range ov {
		p := filepath.Join(dir, fmt.Sprintf("ov%d.go", i))
		i++
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return "", err
		}
		rep[k] = p
	}
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	p := filepath.Join(dir, "overlay.json")
	return p, os.WriteFile(p, j, 0o644)
}

var runSeq atomic.Int64

var syncImport = regexp.MustCompile(`(?m)^(\s*|import\s+)"sync"[ \t]*$`)

// jitter replaces the import of sync by a package that delays the operations
// on mutexes and the like for random times, so that a stress run visits many
// interleavings.
func jitter(ov map[string][]byte) map[string][]byte {
	out := map[string][]byte{}
	for k, b := range ov {
		out[k] = b
	}
	filepath.WalkDir(repoDir, func(p string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() && strings.HasPrefix(d.Name(), ".") && p != repoDir {
			return filepath.SkipDir
		}
		if d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, ok := ov[p]
		if !ok {
			b, _ = os.ReadFile(p)
		}
		if c := syncImport.ReplaceAll(b, []byte(`${1}sync "github.com/bodgit/sevenzip/internal/zzverif/vsync"`)); len(c) != len(b) {
			out[p] = c
		}
		return nil
	})
	return out
}

// Native builds and runs the replay binary.
type Native struct {
	dir  string
	bins map[string]string
	ov   map[string][]byte
}

func newNative(ov map[string][]byte) (*Native, error) {
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	return &Native{dir: d, ov: ov, bins: map[string]string{}}, nil
}

func (n *Native) build(race bool) (string, error) {
	k := fmt.Sprint(race)
	if b, ok := n.bins[k]; ok {
		return b, nil
	}
	ov := n.ov
	if race {
		ov = jitter(n.ov)
	}
	dir := filepath.Join(n.dir, "ov-"+k)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	ovf, err := writeOverlay(dir, ov)
	if err != nil {
		return "", err
	}
	out := filepath.Join(n.dir, "replay-"+k)
	args := []string{"build", "-overlay", ovf, "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./internal/zzverif/replay")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, b)
	}
	n.bins[k] = out
	return out, nil
}

func (n *Native) close() {
	if n != nil && strings.Contains(n.dir, "gosym") {
		os.RemoveAll(n.dir)
	}
}

// ReplayFile is the stored form of a witness.
type ReplayFile struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"msg"`
	Where    string   `json:"where"`
	Tier     int      `json:"tier"`
	Vals     []uint64 `json:"vals"`
	Trace    []string `json:"trace,omitempty"`
	Native   string   `json:"native,omitempty"`
	Sched    bool     `json:"sched,omitempty"`
}

// stress executes a witness many times under the race detector.
func (n *Native) stress(r *ReplayFile, limit time.Duration) (failed bool, out string) {
	if _, err := n.build(true); err != nil {
		return false, "BUILD-ERROR " + err.Error()
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	end := time.Now().Add(limit)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 60 && time.Now().Before(end); j++ {
				f, o := n.run(r, true, 20*time.Second)
				mu.Lock()
				if !failed {
					failed, out = f, o
				}
				stop := failed || strings.Contains(o, "VERIF-ERROR")
				mu.Unlock()
				if stop {
					return
				}
			}
		}()
	}
	wg.Wait()
	return
}

// run executes a witness natively: returns whether it fails and the output.
func (n *Native) run(r *ReplayFile, race bool, timeout time.Duration) (failed bool, out string) {
	bin, err := n.build(race)
	if err != nil {
		return false, "BUILD-ERROR " + err.Error()
	}
	f := filepath.Join(n.dir, fmt.Sprintf("w%d-%d.json", time.Now().UnixNano(), runSeq.Add(1)))
	b, _ := json.Marshal(r)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return false, err.Error()
	}
	defer os.Remove(f)
	lim := "ulimit -v 12000000; "
	if race {
		lim = ""
	}
	work := filepath.Join(n.dir, "work")
	os.MkdirAll(work, 0o755)
	cmd := exec.Command("bash", "-c", lim+"exec timeout -s KILL "+fmt.Sprint(int(timeout.Seconds()))+" "+bin+" "+f)
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=6GiB", "TMPDIR="+work)
	o, err := cmd.CombinedOutput()
	s := string(o)
	if len(s) > 4000 {
		s = s[:4000]
	}
	if err == nil {
		return false, s
	}
	code := cmd.ProcessState.ExitCode()
	switch {
	case code == 137 || code == -1:
		return true, "TIMEOUT " + s
	case strings.Contains(s, "VERIF-ASSUME") || strings.Contains(s, "VERIF-ERROR"):
		return false, s
	}
	return true, s
}
