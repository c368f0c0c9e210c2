//go:build race

package core

import (
	"os"
	"path/filepath"
	"runtime"
	"strings"
)

// The harness is not instrumented, but the runtime reports its map and slice
// accesses; and its own synchronisation must not order the library's accesses.
const raceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

var (
	raceSeen int
	raceRead int64
)

// checkRaces returns the first new report of the race detector that involves
// memory shared by library code.
func checkRaces(prefix string) string {
	n := runtime.RaceErrors()
	if n == raceSeen {
		return ""
	}
	raceSeen = n
	fs, _ := filepath.Glob(prefix + ".*")
	if len(fs) == 0 {
		return ""
	}
	fh, err := os.Open(fs[0])
	if err != nil {
		return ""
	}
	defer fh.Close()
	st, _ := fh.Stat()
	b := make([]byte, st.Size()-raceRead)
	fh.ReadAt(b, raceRead)
	raceRead = st.Size()
	for _, rep := range strings.Split(string(b), "==================") {
		if strings.Contains(rep, "WARNING: DATA RACE") && libraryRace(rep) {
			return rep
		}
	}
	return ""
}

// libraryRace tells whether both accesses were made by the library, or by
// Touch on a value that the library has just returned.
func libraryRace(rep string) bool {
	lib, touch := 0, 0
	lines := strings.Split(rep, "\n")
	for k, l := range lines {
		t := strings.TrimSpace(l)
		if !strings.HasPrefix(t, "Read at") && !strings.HasPrefix(t, "Write at") && !strings.HasPrefix(t, "Previous ") && !strings.HasPrefix(t, "Atomic ") {
			continue
		}
		owner := ""
		for _, f := range lines[k+1:] {
			if strings.TrimSpace(f) == "" {
				break
			}
			if strings.HasPrefix(f, "      ") { // file line
				continue
			}
			f = strings.TrimSpace(f)
			if strings.HasPrefix(f, "verif/sim/core.Touch") {
				owner = "library"
				touch++
			} else if strings.HasPrefix(f, "verif/sim/") {
				owner = "harness"
			} else if strings.HasPrefix(f, "github.com/juju/worker/") || strings.HasPrefix(f, "gopkg.in/tomb") {
				owner = "library"
			}
			if owner != "" {
				break
			}
		}
		if owner == "" {
			return false
		}
		if owner == "library" {
			lib++
		}
	}
	return lib == 2 && touch < 2
}
