package main

import (
	"fmt"
	"os"
	"strings"

	"verif/sim"
)

// The race detector writes its reports to the file named by GORACE's log_path.

var raceOff int

func raceLog() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok && p != os.DevNull {
			return fmt.Sprintf("%s.%d", p, os.Getpid())
		}
	}
	return ""
}

func init() {
	if sim.RaceBuild && raceLog() != "" {
		sim.RaceReport = raceReport
	}
}

// raceReport reads the reports written since the last call.
func raceReport() (string, bool) {
	b, err := os.ReadFile(raceLog())
	if err != nil || len(b) <= raceOff {
		return "unsynchronized access to shared memory", true
	}
	s := string(b[raceOff:])
	raceOff = len(b)
	msg := ""
	for _, rep := range strings.Split(s, "WARNING: DATA RACE") {
		if m, real := raceSites(rep); real {
			if msg == "" {
				msg = m
			}
		}
	}
	return msg, msg != ""
}

// raceSites names the two accesses of a report; real is false when an access was
// made by the harness itself.
func raceSites(rep string) (msg string, real bool) {
	var kinds, sites []string
	lines := strings.Split(rep, "\n")
	for i := 0; i < len(lines); i++ {
		l := strings.TrimSpace(lines[i])
		if !strings.Contains(l, " at 0x") || !strings.Contains(l, " by ") {
			continue
		}
		kinds = append(kinds, strings.ToLower(l[:strings.Index(l, " at 0x")]))
		site := ""
		for i++; i+1 < len(lines) && strings.HasPrefix(lines[i], "  "); i += 2 {
			fn := strings.TrimSpace(lines[i])
			pos := strings.TrimSpace(lines[i+1])
			if strings.HasPrefix(fn, "runtime.") || strings.HasPrefix(fn, "internal/") {
				continue
			}
			if k := strings.LastIndex(pos, " +0x"); k > 0 {
				pos = pos[:k]
			}
			if k := strings.LastIndex(pos, "/"); k > 0 {
				pos = pos[k+1:]
			}
			site = strings.TrimSuffix(fn, "()") + " (" + pos + ")"
			break
		}
		sites = append(sites, site)
	}
	if len(sites) < 2 {
		return "", false
	}
	for _, s := range sites[:2] {
		if strings.HasPrefix(s, "verif/") && !strings.HasPrefix(s, "verif/adapt.") && !strings.HasPrefix(s, "verif/sim/simatomic.") && !mapIter(s) || s == "" && len(sites) > 9 {
			return "", false
		}
	}
	return fmt.Sprintf("data race: %s in %s and %s in %s", kinds[0], sites[0], kinds[1], sites[1]), true
}

// mapIter: the range statements of the library over its maps go through these.
func mapIter(s string) bool {
	return strings.HasPrefix(s, "verif/sim.newMapIter") || strings.HasPrefix(s, "verif/sim.RangeMap") || strings.HasPrefix(s, "verif/sim.(*MapIter")
}
