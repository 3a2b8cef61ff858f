package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// cmdReplay runs the failing input recorded in a replay file.
func cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rep struct {
		Property string          `json:"property"`
		Input    json.RawMessage `json:"failing_input"`
	}
	if err := json.Unmarshal(b, &rep); err != nil || len(rep.Input) == 0 || string(rep.Input) == "null" {
		fmt.Fprintln(os.Stderr, "no failing input in the replay file")
		return 2
	}
	p := propByID(rep.Property)
	g := groups[p.Oracle]
	tmp, _ := os.MkdirTemp("", "verif-replay")
	defer os.RemoveAll(tmp)
	ovf, pkgDir := oracleOverlay(g, tmp, nil)
	c := exec.Command("go", "test", "-count=1", "-vet=off", "-overlay", ovf, "-run", "^TestVerifOracle$", "-v", ".")
	c.Dir = pkgDir
	c.Env = append(os.Environ(), "VERIF_PROP="+rep.Property, "VERIF_REPLAY="+string(rep.Input))
	c.Env = append(c.Env, oracleEnv(g, pkgDir, tmp)...)
	out, _ := c.CombinedOutput()
	for _, l := range strings.Split(string(out), "\n") {
		if strings.Contains(l, "REPLAY-") {
			fmt.Println(l)
		}
	}
	if strings.Contains(string(out), "REPLAY-PASSES") {
		return 0
	}
	if !strings.Contains(string(out), "REPLAY-FAILS") {
		fmt.Println(string(out))
	}
	return 1
}

// oracleOverlay writes the overlay file that mounts the oracle of a group.
func oracleOverlay(g Group, tmp string, skip map[string]bool) (string, string) {
	pkgDir := filepath.Join(repoDir, g.Dir)
	rep := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(verifDir, "oracle", g.Name, "*.go"))
	for _, f := range fs {
		k := "zz_verif_" + strings.TrimSuffix(filepath.Base(f), "_test.go") + "_test.go"
		if !skip[k] {
			rep[filepath.Join(pkgDir, k)] = f
		}
	}
	sp := filepath.Join(verifDir, "contracts", g.Name, "spec.go")
	if _, err := os.Stat(sp); err == nil {
		rep[filepath.Join(pkgDir, "zz_verif_spec_test.go")] = sp
	}
	if g.Name != "qrcode" {
		cs, _ := filepath.Glob(filepath.Join(verifDir, "oracle", "common", "*.txt"))
		for _, f := range cs {
			b, _ := os.ReadFile(f)
			n := strings.TrimSuffix(filepath.Base(f), ".go.txt")
			if n == "symbol" && (g.Name == "imgkit" || g.Name == "shapes") {
				continue
			}
			q := filepath.Join(tmp, "common_"+n+"_test.go")
			os.WriteFile(q, []byte(strings.Replace(string(b), "package PKG", "package "+g.Name, 1)), 0644)
			rep[filepath.Join(pkgDir, "zz_verif_common_"+n+"_test.go")] = q
		}
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, j, 0644)
	return ovf, pkgDir
}

// oracleEnv: the oracle of the terminal writer runs against a terminal that records
// what is drawn.
func oracleEnv(g Group, pkgDir, tmp string) []string {
	if g.Name != "terminal" {
		return nil
	}
	c := exec.Command("go", "list", "-f", "{{.Dir}}", "github.com/nsf/termbox-go")
	c.Dir = pkgDir
	out, _ := c.Output()
	dir := filepath.Join(tmp, "termbox")
	os.MkdirAll(dir, 0755)
	cp := func(from, to string) {
		b, _ := os.ReadFile(from)
		os.WriteFile(to, b, 0644)
	}
	cp(filepath.Join(strings.TrimSpace(string(out)), "api_common.go"), filepath.Join(dir, "api_common.go"))
	cp(filepath.Join(verifDir, "oracle", "termbox", "api.go"), filepath.Join(dir, "api.go"))
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module github.com/nsf/termbox-go\n"), 0644)
	w := "go 1.20\nuse (\n" + repoDir + "\n" + pkgDir + "\n)\nreplace github.com/nsf/termbox-go => " + dir + "\n"
	os.WriteFile(filepath.Join(tmp, "go.work"), []byte(w), 0644)
	cp(filepath.Join(repoDir, "go.work.sum"), filepath.Join(tmp, "go.work.sum"))
	return []string{"GOWORK=" + filepath.Join(tmp, "go.work"), "GOFLAGS=-mod=readonly", "GOPROXY=off"}
}
