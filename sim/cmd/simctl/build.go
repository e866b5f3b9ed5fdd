package main

import (
	"bytes"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

const repo = "/repo"

// verifDir is the root of the verification tree.
var verifDir = func() string {
	if v := os.Getenv("VERIF_DIR"); v != "" {
		return v
	}
	return "/verif"
}()

// goEnv is the environment of every go command: offline, local toolchain.
func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		switch strings.SplitN(e, "=", 2)[0] {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GO111MODULE", "GOWORK", "GOSUMDB":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off")
}

type program struct {
	bin   string
	locs  []string
	race  bool
	wallS float64
}

// buildSim builds the simulation of /repo's current working tree below dir.
func buildSim(dir string, race bool) *program {
	t := time.Now()
	g, err := exec.Command("go", "env", "GOROOT").Output()
	must(err)
	goroot := strings.TrimSpace(string(g))
	simdir := filepath.Join(verifDir, "sim")
	ov := &overlay{map[string]string{}}
	stdOverlay(goroot, simdir, dir, ov)
	locs := instrumentRepo(repo, dir, ov)
	hs, err := filepath.Glob(filepath.Join(simdir, "harness", "*.go"))
	must(err)
	for _, h := range hs {
		ov.Replace[filepath.Join(repo, "zzverifsim", filepath.Base(h))] = h
	}
	// the build may want to touch go.mod and go.sum: give it copies
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		must(err)
		writeFile(filepath.Join(dir, "mod", f), b)
	}
	saveOverlay(filepath.Join(dir, "overlay.json"), ov)
	bin := filepath.Join(dir, "sim")
	args := []string{"build", "-overlay", filepath.Join(dir, "overlay.json"), "-modfile", filepath.Join(dir, "mod", "go.mod"), "-o", bin}
	if race {
		// the harness itself runs on one thread and is not instrumented
		args = append(args, "-race", "-gcflags="+modPath+"/zzverifsim=-race=false")
	}
	args = append(args, "./zzverifsim")
	c := exec.Command("go", args...)
	c.Dir = repo
	c.Env = goEnv()
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	if err := c.Run(); err != nil {
		fatalf("building the simulation of %s failed: %v\n%s", repo, err, out.String())
	}
	return &program{bin, locs, race, time.Since(t).Seconds()}
}
