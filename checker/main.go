package main

import (
	"bufio"
	"embed"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

//go:embed probes
var probeFS embed.FS

func probeSource(names ...string) string {
	var b strings.Builder
	for _, n := range append([]string{"prelude"}, names...) {
		d, err := probeFS.ReadFile("probes/" + n + ".go.txt")
		if err != nil {
			panic(err)
		}
		b.Write(d)
		b.WriteString("\n")
	}
	return b.String()
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		if a, err := filepath.Abs(d); err == nil {
			return a
		}
		return d
	}
	return "/repo"
}

// usage: checker <property> [quick|thorough]; checker -dev <property> [law]
func main() {
	if pf := os.Getenv("PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(memoryCap)
	go watchMemory()
	debugPanics = os.Getenv("DBG") != ""
	if len(os.Args) > 2 && os.Args[1] == "-dev" {
		dev(os.Args[2:])
		return
	}
	if len(os.Args) > 3 && os.Args[1] == "-worker" {
		worker(os.Args[2], os.Args[3])
		return
	}
	if len(os.Args) < 2 || properties[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: checker <property> [quick|thorough]")
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	os.Exit(check(os.Args[1], tier))
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// check decides one property on the current source and reports.
func check(id, tier string) int {
	p := properties[id]
	t0 := time.Now()
	deep = tier == "thorough"
	st := newStats()
	var fs []Finding
	w, err := loadWorld(repoDir(), probeSource(p.files(id)...))
	if err != nil {
		fs = append(fs, Finding{Rule: "load", Where: repoDir(), Msg: "not decided: the source or the laws of the property do not type-check: " + err.Error(), Key: "load", Open: true})
	} else {
		if p.laws {
			decideAll(w, id, tier, w.lawsOf(), st, &fs)
			if st.Laws != p.nLaws {
				fs = append(fs, Finding{Rule: "laws", Where: "-", Msg: fmt.Sprintf("not decided: %d laws found, %d expected", st.Laws, p.nLaws), Key: "laws", Open: true})
			}
		}
		for _, a := range p.analyses {
			func() {
				defer func() {
					if x := recover(); x != nil {
						fs = append(fs, Finding{Rule: "analysis", Where: "-", Msg: fmt.Sprint("not decided: analysis failed: ", x), Key: "analysis", Open: true})
					}
				}()
				a(w, st, &fs)
			}()
		}
		if st.Obligations == 0 {
			fs = append(fs, Finding{Rule: "laws", Where: "-", Msg: "not decided: nothing to decide was found", Key: "laws", Open: true})
		}
	}
	known := readKnown(filepath.Join(verifDir(), "known_findings.txt"), id)
	var viol, open []Finding
	for _, f := range fs {
		if f.Open {
			open = append(open, f)
			continue
		}
		if what, ok := known[f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
			continue
		}
		viol = append(viol, f)
	}
	rdir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	if len(viol) > 0 {
		rp := filepath.Join(rdir, id+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s violated in %s (%s tier)\n", id, repoDir(), tier)
		for i, f := range viol {
			if i >= 50 {
				fmt.Fprintf(&b, "... and %d more\n", len(viol)-i)
				break
			}
			fmt.Fprintf(&b, "\nrule:  %s %s\nwhere: %s\nwhat:  %s\n", f.Rule, f.Shape, f.Where, f.Msg)
			for _, l := range f.Path {
				if len(l) > 2000 {
					l = l[:2000] + "…"
				}
				fmt.Fprintf(&b, "       %s\n", l)
			}
		}
		os.WriteFile(rp, []byte(b.String()), 0o644)
		for i, f := range viol {
			if i >= 5 {
				fmt.Printf("  ... %d more findings in %s\n", len(viol)-i, rp)
				break
			}
			m := f.Msg
			if len(m) > 300 {
				m = m[:300] + "…"
			}
			fmt.Printf("  %s: %s [%s %s]\n", f.Where, m, f.Rule, f.Shape)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	}
	for i, f := range open {
		if i >= 8 {
			fmt.Printf("UNDECIDED: property=%s ... %d more\n", id, len(open)-i)
			break
		}
		m := f.Msg
		if len(m) > 300 {
			m = m[:300] + "…"
		}
		fmt.Printf("UNDECIDED: property=%s %s: %s [%s %s]\n", id, f.Where, m, f.Rule, f.Shape)
	}
	evidence(id, tier, p, w, st, fs, len(viol), time.Since(t0))
	if len(viol) > 0 {
		return 1
	}
	if st.Held == 0 {
		fmt.Printf("property=%s: nothing could be decided on this source (%d of %d obligations held)\n", id, st.Held, st.Obligations)
		return 2
	}
	fmt.Printf("property=%s held: %d of %d obligations over %d functions, %d undecided, %.1fs\n", id, st.Held, st.Obligations, len(st.Funcs), len(open), time.Since(t0).Seconds())
	return 0
}

func readKnown(path, id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		// finding: property=<id> key=<quoted key> <what fails>
		l := strings.TrimSpace(sc.Text())
		r, ok := strings.CutPrefix(l, "finding: property="+id+" key=")
		if !ok {
			continue
		}
		k, err := strconv.QuotedPrefix(r)
		if err != nil {
			continue
		}
		key, _ := strconv.Unquote(k)
		out[key] = strings.TrimSpace(r[len(k):])
	}
	return out
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func evidence(id, tier string, p *Property, w *World, st *Stats, fs []Finding, viol int, d time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation":              p.how,
		"obligations":              st.Obligations,
		"discharged":               st.Held,
		"instructions_interpreted": st.Instrs,
		"calls_interpreted":        st.Calls,
		"functions_analysed":       keys(st.Funcs),
		"functions_count":          len(st.Funcs),
	}
	if p.laws {
		cov["laws"] = st.Laws
		cov["list_shapes"] = st.Samples
		if len(st.Bounded) > 0 {
			cov["loops_followed_up_to_the_cut"] = keys(st.Bounded)
		}
	}
	if st.Entries > 0 {
		cov["entry_points"] = st.Entries
		cov["effects_examined"] = st.Events
	}
	for k, v := range st.Extra {
		cov[strings.ReplaceAll(k, " ", "_")] = v
	}
	var msgs []string
	for _, f := range fs {
		msgs = append(msgs, f.Where+": "+f.Rule+" "+f.Shape+": "+f.Msg)
		if len(msgs) >= 20 {
			break
		}
	}
	if msgs != nil {
		cov["findings"] = msgs
	}
	nopen := 0
	for _, f := range fs {
		if f.Open {
			nopen++
		}
	}
	cov["undecided"] = nopen
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": d.Seconds(), "violations": viol, "assumptions": p.assume()}
	out, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(out, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// dev prints every obligation of a property.
func dev(args []string) {
	id := args[0]
	p := properties[id]
	deep = os.Getenv("VERIF_TIER") == "thorough"
	w, err := loadWorld(repoDir(), probeSource(p.files(id)...))
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	st := newStats()
	var fs []Finding
	if p.laws {
		for _, l := range w.lawsOf() {
			if len(args) > 1 && !strings.Contains(l.Name, args[1]) {
				continue
			}
			checkLaw(w, l, st, &fs, true)
		}
	}
	for _, a := range p.analyses {
		a(w, st, &fs)
	}
	for _, f := range fs {
		fmt.Println(f.Where, f.Rule, f.Shape, f.Msg)
		for i, x := range f.Path {
			if i > 12 {
				break
			}
			fmt.Println("     ", x)
		}
	}
	fmt.Println("laws", st.Laws, "obligations", st.Obligations, "held", st.Held, "funcs", len(st.Funcs), "instrs", st.Instrs, st.Extra)
}
