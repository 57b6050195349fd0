// W01: autotidy and autoupdate run their command once in every directory.
// The tools are built from /repo by PREP and run in scratch trees below the
// work directory, with a stand-in go command that records directory and
// arguments.
package main

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"verif.local/mc/mc/drv"
	"verif.local/mc/mc/vsched"
)

var work = os.Getenv("VERIF_WORK")

var tools = []struct{ bin, args string }{
	{"autotidy", "mod tidy"},
	{"autoupdate", "get -u"},
}

type node struct {
	name string
	kind int
	kids []*node
}

const (
	dir = iota
	file
	link     // a symbolic link to a directory beside the tree
	linkRoot // a symbolic link to the root of the tree
	dangling
)

type run struct {
	top  string // scratch directory: tree and outside below it
	root string
	log  string
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func newRun() *run {
	top, err := os.MkdirTemp(work, "tree")
	must(err)
	must(os.Chmod(top, 0o711))
	r := &run{top: top, root: filepath.Join(top, "root"), log: filepath.Join(top, "log")}
	must(os.Mkdir(r.root, 0o777))
	must(os.Chmod(r.root, 0o777))
	must(os.MkdirAll(filepath.Join(top, "outside", "sub"), 0o755))
	must(os.WriteFile(r.log, nil, 0o666))
	must(os.Chmod(r.log, 0o666))
	return r
}

func (r *run) close() {
	// the scratch directory was made by newRun; links are not followed
	filepath.WalkDir(r.root, func(p string, d os.DirEntry, err error) error {
		if d != nil && d.IsDir() {
			os.Chmod(p, 0o755)
		}
		return nil
	})
	must(os.RemoveAll(r.top))
}

func (r *run) build(at string, ns []*node) {
	for _, n := range ns {
		p := filepath.Join(at, n.name)
		switch n.kind {
		case dir:
			must(os.Mkdir(p, 0o777))
			must(os.Chmod(p, 0o777))
			r.build(p, n.kids)
		case file:
			must(os.WriteFile(p, []byte("module x\n"), 0o644))
		case link:
			must(os.Symlink(filepath.Join(r.top, "outside"), p))
		case linkRoot:
			must(os.Symlink(r.root, p))
		case dangling:
			must(os.Symlink(filepath.Join(r.top, "nothing"), p))
		}
	}
}

// visits lists the directories to visit below at, which included.
func visits(at string, ns []*node) []string {
	out := []string{at}
	for _, n := range ns {
		if n.kind == dir && n.name != "vendor" && n.name != ".git" {
			out = append(out, visits(filepath.Join(at, n.name), n.kids)...)
		}
	}
	return out
}

func show(ns []*node) string {
	var s []string
	for _, n := range ns {
		t := n.name
		switch n.kind {
		case dir:
			t += "/"
			if len(n.kids) > 0 {
				t += "(" + show(n.kids) + ")"
			}
		case link, linkRoot, dangling:
			t += "@"
		}
		s = append(s, t)
	}
	return strings.Join(s, " ")
}

// exec runs a tool in the tree and compares the recorded commands.
func (r *run) exec(tool int, what string, want []string, fail, kill []string, unprivileged bool) {
	cmd := exec.Command(filepath.Join(work, tools[tool].bin))
	cmd.Dir = r.root
	cmd.Env = []string{"PATH=" + filepath.Join(work, "bin"), "W01_LOG=" + r.log,
		"W01_FAIL=|" + strings.Join(fail, "|") + "|", "W01_KILL=|" + strings.Join(kill, "|") + "|"}
	if unprivileged {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	out, err := cmd.CombinedOutput()
	if unprivileged && errors.Is(err, syscall.EPERM) {
		return // no right to become another user here
	}
	var status *exec.ExitError
	if err != nil && !errors.As(err, &status) {
		must(err)
	}
	if err != nil && strings.Contains(string(out), "panic:") {
		vsched.Fail("%s in %s: %v\n%s", tools[tool].bin, what, err, out)
	}
	b, err := os.ReadFile(r.log)
	must(err)
	must(os.WriteFile(r.log, nil, 0o666))
	var got []string
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		d, args, _ := strings.Cut(l, "\t")
		if args != tools[tool].args {
			vsched.Fail("%s ran go %s", tools[tool].bin, args)
		}
		got = append(got, d)
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		vsched.Fail("%s in %s ran in %s, want %s", tools[tool].bin, what, r.rel(got), r.rel(want))
	}
}

func (r *run) rel(ps []string) []string {
	out := []string{}
	for _, p := range ps {
		q, _ := filepath.Rel(r.root, p)
		out = append(out, q)
	}
	return out
}

type kindOf struct {
	name  string
	kinds []int
}

// forest chooses the entries of a directory within the budget of nodes.
func forest(names []kindOf, budget *int) []*node {
	var out []*node
	for _, k := range names {
		if *budget == 0 {
			break
		}
		c := vsched.Choose(1 + len(k.kinds))
		if c == 0 {
			continue
		}
		*budget--
		n := &node{name: k.name, kind: k.kinds[c-1]}
		if n.kind == dir {
			n.kids = forest(names, budget)
		}
		out = append(out, n)
	}
	return out
}

func trees(names []kindOf, nodes int) func() {
	return func() {
		b := nodes
		ns := forest(names, &b)
		r := newRun()
		defer r.close()
		r.build(r.root, ns)
		for t := range tools {
			r.exec(t, show(ns), visits(r.root, ns), nil, nil, false)
		}
	}
}

// failures: every subset of the visited directories fails or is killed.
func failures(nodes int) func() {
	return func() {
		b := nodes
		ns := forest([]kindOf{{"a", []int{dir}}, {"b", []int{dir}}, {"vendor", []int{dir}}}, &b)
		r := newRun()
		defer r.close()
		r.build(r.root, ns)
		tool := vsched.Choose(len(tools))
		want := visits(r.root, ns)
		var fail, kill []string
		for _, d := range want {
			switch vsched.Choose(3) {
			case 1:
				fail = append(fail, d)
			case 2:
				kill = append(kill, d)
			}
		}
		r.exec(tool, fmt.Sprint(show(ns), " failing ", r.rel(fail), " killed ", r.rel(kill)), want, fail, kill, false)
	}
}

// chain: every path of names down to a depth.
func chain(names []string, depth int) func() {
	return func() {
		var top []*node
		at := &top
		for i := 0; i < depth; i++ {
			c := vsched.Choose(len(names) + 1)
			if c == len(names) {
				break
			}
			n := &node{name: names[c]}
			// a sibling on the way must not be missed
			*at = append(*at, n, &node{name: "zz"})
			at = &n.kids
		}
		r := newRun()
		defer r.close()
		r.build(r.root, top)
		for t := range tools {
			r.exec(t, show(top), visits(r.root, top), nil, nil, false)
		}
	}
}

var modes = []os.FileMode{0o755, 0, 0o311, 0o644}

// rights: directories an unprivileged user cannot list or enter.
func rights(nodes int) func() {
	return func() {
		if os.Getuid() != 0 {
			return
		}
		b := nodes
		ns := forest([]kindOf{{"a", []int{dir}}, {"b", []int{dir}}, {".git", []int{dir}}}, &b)
		r := newRun()
		defer r.close()
		r.build(r.root, ns)
		tool := vsched.Choose(len(tools))
		var want []string
		what := show(ns)
		type ch struct {
			p string
			m os.FileMode
		}
		var later []ch
		var rec func(at string, ns []*node, list, enter bool)
		rec = func(at string, ns []*node, list, enter bool) {
			for _, n := range ns {
				p := filepath.Join(at, n.name)
				m := modes[vsched.Choose(len(modes))]
				what += fmt.Sprintf(" %o", m)
				later = append(later, ch{p, m})
				e := enter && m&0o1 != 0
				skip := n.name == ".git"
				if list && e && !skip {
					want = append(want, p)
				}
				rec(p, n.kids, list && m&0o4 != 0 && !skip, e)
			}
		}
		want = append(want, r.root)
		rec(r.root, ns, true, true)
		for i := len(later) - 1; i >= 0; i-- {
			must(os.Chmod(later[i].p, later[i].m))
		}
		r.exec(tool, what, want, nil, nil, true)
	}
}

// deep: paths that are long, or have many parts; a sibling on every level.
func deep(shapes [][2]int) func() {
	return func() {
		s := shapes[vsched.Choose(len(shapes))]
		var top []*node
		at := &top
		for i := 0; i < s[0]; i++ {
			n := &node{name: strings.Repeat("n", s[1])}
			*at = append(*at, n, &node{name: "z"})
			at = &n.kids
		}
		r := newRun()
		defer r.close()
		r.build(r.root, top)
		what := fmt.Sprintf("%d nested directories with names of %d bytes", s[0], s[1])
		for t := range tools {
			r.exec(t, what, visits(r.root, top), nil, nil, false)
		}
	}
}

// wide: many directories, and the tool run twice.
func wide(count int) func() {
	return func() { wideTree(count) }
}

func wideTree(count int) {
	var ns []*node
	for i := 0; i < count; i++ {
		n := &node{name: fmt.Sprintf("d%05d", i)}
		if i%7 == 0 {
			n.kids = []*node{{name: "vendor", kids: []*node{{name: "x"}}}, {name: "w", kids: []*node{{name: ".git"}, {name: "y"}}}}
		}
		ns = append(ns, n)
	}
	r := newRun()
	defer r.close()
	r.build(r.root, ns)
	for i := 0; i < 2; i++ {
		for t := range tools {
			r.exec(t, "a wide tree", visits(r.root, ns), nil, nil, false)
		}
	}
}

func main() {
	d := []int{dir}
	df := []int{dir, file}
	drv.Main(drv.Check{
		ID:          "W01",
		Level:       "model_checking",
		Rule:        "every tree up to a number of nodes over directories a and b and directories or files vendor and .git; every pair (triple) of similar names, links and files at the top and below a directory; every chain of names; deep trees, long names and paths, many siblings; every failing or killed subset of the commands in small trees; every pattern of directory permissions for an unprivileged user. Each tool, built from the tree, runs in the scratch tree with a stand-in go command recording directory and arguments",
		Bounds:      "4 nodes (5); 2 (3) entries over 16 names; chains of 4 (6); depths to 600 (1800), names to 255 bytes, paths to 3.6 kB, 300 (3000) siblings; failures and permissions on 3 (4) nodes",
		Assumptions: []string{"the started directory itself is not named vendor or .git; symbolic links are not followed"},
		Units: func(th bool) []drv.Unit {
			x := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			odd := []kindOf{{"vendors", d}, {".github", d}, {".vendor", d}, {"git", d}, {"Vendor", d}, {"a b", d}, {"-x", d}, {"..a", d}, {"_t", d}, {"testdata", d}, {".hidden", d},
				{"go.mod", []int{file}}, {"l", []int{link, linkRoot, dangling}}, {".git", df}, {"vendor", df}, {"z", d}}
			return []drv.Unit{
				{Name: "trees", Shards: 8, Split: 4, Body: trees([]kindOf{{"a", d}, {"b", d}, {".git", df}, {"vendor", df}}, x(4, 5))},
				{Name: "names", Shards: 8, Split: 4, Body: trees(odd, x(2, 3))},
				{Name: "chains", Shards: 8, Split: 2, Body: chain([]string{"a", "b", "vendor", ".git"}, x(4, 6))},
				{Name: "failures", Shards: 8, Split: 4, Body: failures(x(3, 4))},
				{Name: "rights", Shards: 8, Split: 4, Body: rights(x(2, 3))},
				{Name: "wide", Shards: 4, Split: 1, Body: wide(x(300, 3000))},
				{Name: "deep", Shards: 8, Split: 1, Body: deep([][2]int{{8, 1}, {16, 1}, {33, 1}, {65, 1}, {129, 1}, {300, 1}, {1, 64}, {1, 128}, {1, 255}, {2, 127}, {2, 255}, {4, 63}, {5, 255}, {9, 127}, {14, 255}, {40, 30}, {600, 1}, {1000, 1}, {1800, 1}}[:x(17, 19)])},
			}
		},
	})
}
