package prop

import (
	"path"
	"strings"
	"syscall"

	"verif/adapt"
	"verif/sim"
	"verif/sim/simos"
)

// The tree the commands walk, and what the oracle knows of each directory.
type walkDir struct {
	n        *simos.Node
	name     string
	parent   *walkDir
	inside   bool // at or below the start and not in vendor or .git
	excused  bool // could not be reached or entered at some time
	runs     int
	failedEn bool
}

type fsFault struct {
	op    int // index of the file-system operation
	kind  int
	dir   int
	shut  bool
	err   syscall.Errno
	again int
}

const (
	ffOp      = iota // the operation fails
	ffVanish         // a directory disappears
	ffShut           // a directory loses its search permission
	ffUnread         // a directory becomes unreadable
	ffOpen           // a directory gets its permissions back
	ffCreate         // a directory appears
	ffReplace        // a directory is replaced by a file
)

func commandScenario(e *Env) {
	const P = "C27"
	kind := e.Int(2)
	fsys := &simos.FS{}
	root := &simos.Node{Dir: true}
	fsys.Root = root
	var dirs []*walkDir
	byNode := func(n *simos.Node) *walkDir {
		for _, d := range dirs {
			if d.n == n {
				return d
			}
		}
		return nil
	}
	add := func(p *walkDir, name string) *walkDir {
		n := &simos.Node{Name: name, Dir: true}
		d := &walkDir{n: n, name: name, parent: p}
		if p != nil {
			p.n.Add(n)
			d.inside = p.inside && name != "vendor" && name != ".git"
			d.excused = p.excused
		} else {
			root.Add(n)
		}
		dirs = append(dirs, d)
		return d
	}
	// outside the start directory
	outName := Pick(e, "home", "vendor", ".git", "src")
	out := add(nil, outName)
	add(out, "sibling")
	start := add(out, Pick(e, "work", "vendor", ".git", "-x", "a b"))
	start.inside = true
	add(out, "zz")
	names := []string{"a", "b", "vendor", ".git", "cmd", "a b", "-n", ".hidden", "vendored", ".github", "Vendor", "git", "..x", "internal", "\u00fc", "vendor.bak", "_x", "testdata", "node_modules", "a\nb", "VENDOR", ".gitmodules"}
	have := func(d *walkDir, name string) bool {
		for _, k := range d.n.Kids {
			if k.Name == name {
				return true
			}
		}
		return false
	}
	nd := e.Range(0, 3+e.Size/8)
	if e.Chance(3) {
		nd = e.Range(20, 80)
	}
	special := e.Range(0, 40)
	shape, big := 0, false
	if e.Int(3000) == 0 {
		nd, shape, big = e.Range(100, 500), e.Int(3), true
		sim.Probe("big-tree")
	}
	for i := 0; i < nd; i++ {
		// parents among the directories at or below the start
		p := dirs[e.Range(2, len(dirs)-1)]
		switch {
		case shape == 1: // many in one directory
			p = dirs[min(4, len(dirs)-1)]
		case shape == 2 && i < 120: // deep
			p = dirs[len(dirs)-1]
		}
		if p == dirs[3] || p == out {
			p = start
		}
		name := names[e.Int(len(names))]
		if e.Chance(special) {
			name = Pick(e, "vendor", ".git")
		}
		if have(p, name) || big && e.Chance(90) {
			name = sim.Sprintf("d%d", i)
		}
		switch e.Weighted(8, 1, 1) {
		case 0:
			d := add(p, name)
			if e.Chance(8) {
				switch e.Int(3) {
				case 0:
					d.n.NoEnter = true
				case 1:
					d.n.NoList = true
				case 2:
					d.n.BadList = true
				}
			}
		case 1: // a plain file, also one called vendor or .git
			if e.Chance(40) {
				if f := Pick(e, "go.mod", "go.sum", "go.work", "main.go", ".gitignore"); !have(p, f) {
					name = f
				}
			}
			p.n.Add(&simos.Node{Name: name, Data: []byte("x")})
		case 2: // a link
			p.n.Add(&simos.Node{Name: name, Link: Pick(e, ".", "..", "/"+outName, "/"+outName+"/sibling", "a", "missing", "../a")})
		}
	}
	fsys.Cwd = start.n
	if e.Chance(6) {
		fsys.NoGetwd = true
		sim.Fault("getwd")
	}
	switch e.Int(40) {
	case 0:
		start.n.NoEnter = true
	case 1:
		start.n.NoList = true
	case 2:
		start.n.BadList = true
	case 3:
		start.n.BadStat = true
	case 4:
		start.n.Remove()
	}
	for _, d := range dirs {
		if d.n.NoEnter || d.n.NoList || d.n.BadList || d.n.BadStat {
			sim.Fault("unusable-directory")
		}
	}
	var faults []*fsFault
	for n := e.Weighted(4, 3, 2, 1, 1); n > 0; n-- {
		f := &fsFault{op: e.Int(4 + 3*len(dirs)), kind: e.Weighted(5, 2, 1, 1, 1, 1, 1), dir: e.Int(len(dirs)), err: Pick(e, syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.ENOMEM, syscall.EINTR)}
		faults = append(faults, f)
	}
	cmdFail := 0
	if e.Chance(50) {
		cmdFail = Pick(e, 10, 30, 60, 100)
	}
	var failPlan []int
	for i := 0; i < len(dirs)+4; i++ {
		k := 0
		if e.Chance(cmdFail) {
			k = e.Range(1, 3)
		}
		failPlan = append(failPlan, k)
	}
	e.Note("command=%d directories=%d fs-faults=%d failing-commands=%d%%", kind, len(dirs), len(faults), cmdFail)
	e.Nontrivial = len(dirs) > 4

	// excuse marks a directory, and with it all it holds, as not certain to be processed.
	var excuse func(d *walkDir)
	excuse = func(d *walkDir) {
		d.excused = true
		for _, k := range dirs {
			if k.parent == d && !k.excused {
				excuse(k)
			}
		}
	}
	excuseKids := func(d *walkDir) {
		for _, k := range dirs {
			if k.parent == d && !k.excused {
				excuse(k)
			}
		}
	}
	for _, d := range dirs {
		switch {
		case d.n.Gone || d.n.NoEnter || d.n.BadStat:
			excuse(d)
		case d.n.NoList || d.n.BadList:
			excuseKids(d)
		}
	}
	if start.n.Gone {
		excuse(start)
	}
	startShut := false // the start directory itself could not be entered again
	ops := 0
	fsys.OnOp = func(op, name string) error {
		i := ops
		ops++
		var res error
		for _, f := range faults {
			if f.op != i {
				continue
			}
			d := dirs[f.dir%len(dirs)]
			switch f.kind {
			case ffOp:
				sim.Fault("fail-" + op)
				sim.Log("fault: %s %s fails", op, name)
				if n, err := fsys.Lookup(nz(name)); err == nil {
					if t := byNode(n); t != nil {
						switch op {
						case "open", "readdir":
							excuseKids(t)
						default:
							excuse(t)
							if t == start {
								startShut = true
							}
						}
					}
				}
				res = f.err
			case ffVanish:
				if d != out && !d.n.Gone {
					sim.Fault("directory-vanishes")
					sim.Log("fault: %s vanishes", d.n.Abs())
					excuse(d)
					d.n.Remove()
				}
			case ffShut:
				sim.Fault("directory-shut")
				sim.Log("fault: %s is shut", d.n.Abs())
				excuse(d)
				d.n.NoEnter = true
			case ffUnread:
				sim.Fault("directory-unreadable")
				sim.Log("fault: %s becomes unreadable", d.n.Abs())
				excuseKids(d)
				d.n.NoList = true
			case ffOpen:
				d.n.NoEnter, d.n.NoList, d.n.BadList, d.n.BadStat = false, false, false, false
			case ffCreate:
				if !have(d, "new") && !d.n.Gone {
					sim.Fault("directory-appears")
					add(d, "new").excused = true
				}
			case ffReplace:
				if d != out && d != start && !d.n.Gone {
					sim.Fault("directory-replaced")
					excuse(d)
					d.n.Remove()
					d.parent.n.Add(&simos.Node{Name: d.name, Data: []byte("x")})
				}
			}
		}
		return res
	}
	want := []string{"mod tidy", "get -u"}[kind]
	fsys.OnRun = func(r *simos.Run) (int, error) {
		d := byNode(r.Dir)
		if d == nil || !d.inside {
			e.Fail(P, "ran-outside", "a command ran in %s, which is not among the directories to visit", r.Dir.Abs())
			return 0, nil
		}
		args := ""
		if len(r.Args) > 0 {
			args = path.Base(r.Args[0]) + " " + strings.Join(r.Args[1:], " ")
		}
		e.Check(args == "go "+want, P, "wrong-command", "the command in %s was %q", r.Dir.Abs(), args)
		d.runs++
		e.Check(d.runs == 1, P, "ran-twice", "the command ran %d times in %s", d.runs, r.Dir.Abs())
		k := 0
		if len(failPlan) > 0 {
			k, failPlan = failPlan[0], failPlan[1:]
		}
		switch k {
		case 1:
			sim.Fault("command-exit-1")
			return 1, nil
		case 2:
			sim.Fault("command-not-started")
			return 0, syscall.ENOENT
		case 3:
			sim.Fault("command-exit-2")
			return 2, nil
		}
		return 0, nil
	}
	simos.Install(fsys)
	v, panicked := Try(func() { adapt.RunCommand(kind) })
	fsys.OnOp, fsys.OnRun = nil, nil
	e.Check(!panicked, P, "crashed", "the program crashed: %s", sim.Sprintf("%v", v))
	e.Check(fsys.Running == 0, P, "left-running", "the program ended while %d of its commands were still running", fsys.Running)
	n := 0
	for _, d := range dirs {
		n += d.runs
		if d.inside && !d.excused {
			e.Check(d.runs == 1, P, "not-visited", "the command did not run in %s", d.n.Abs())
		}
	}
	if n > 0 {
		sim.Probe("commands-run")
	}
	e.Check(len(fsys.Writes) == 0, P, "modified-files", "the program itself tried to modify files")
	if !startShut && !start.excused {
		e.Check(fsys.Cwd == start.n, P, "working-directory", "the program ended in %s, not in the start directory", fsys.Cwd.Abs())
	}
}

func nz(s string) string {
	if s == "" {
		return "."
	}
	return s
}

func init() {
	register(&Scenario{Name: "commands", Props: []string{"C27"}, Weight: 1, Run: commandScenario,
		Real: "cmd/autotidy and cmd/autoupdate (their main functions)", Stub: "the file system, the working directory, the go command (recorded, not run)"})
	meta(&Meta{ID: "C27", Rule: "a run is one generated directory tree and sequence of file-system and command faults; non-trivial when there is at least one directory below the start",
		Runs: map[string]int{"quick": 1000000, "thorough": 20000000}})
}
