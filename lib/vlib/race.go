package vlib

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

var raceFrame = regexp.MustCompile(`(?m)^  (\S+)\(\)\n      (\S+:\d+)`)

// raceCheck looks among the reports of the race detector for two accesses of
// the code under test that no lock orders and that lose something when they
// meet: to one map (Go ends the process), or two writes to one variable (one
// of them is lost, as of two appends to one list). Other races, such as
// looking at a flag that somebody sets, are only counted.
func raceCheck(dir string, o *Obs) error {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "DATA RACE") {
				continue
			}
			var maps, writes []string
			for _, acc := range strings.Split(strings.TrimSpace(rep), "\n\n") {
				hd := strings.TrimPrefix(acc, "WARNING: DATA RACE\n")
				write := strings.HasPrefix(hd, "Write at ") || strings.HasPrefix(hd, "Previous write at ")
				if !write && !strings.HasPrefix(hd, "Read at ") && !strings.HasPrefix(hd, "Previous read at ") {
					continue
				}
				fr := raceFrame.FindAllStringSubmatch(hd, -1)
				if len(fr) == 0 {
					continue
				}
				inMap := strings.HasPrefix(fr[0][1], "runtime.map") || strings.HasPrefix(fr[0][1], "internal/runtime/maps.")
				for _, x := range fr {
					if strings.HasPrefix(x[1], "runtime.") || strings.HasPrefix(x[1], "internal/runtime/") {
						continue
					}
					if strings.Contains(x[1], "DyCAPSTeam/DyCAPS/") && !strings.HasPrefix(filepath.Base(x[2]), "vf_") {
						if inMap {
							maps = append(maps, x[1]+" "+x[2])
						}
						if write {
							writes = append(writes, x[1]+" "+x[2])
						}
					}
					break
				}
			}
			if len(maps) >= 2 {
				return fmt.Errorf("two goroutines use a map at the same time, which ends the process when they meet: %s and %s", maps[0], maps[1])
			}
			if len(writes) >= 2 {
				return fmt.Errorf("two goroutines write to a variable at the same time, and one write is lost when they meet: %s and %s", writes[0], writes[1])
			}
			o.Class("data race that loses nothing")
		}
	}
	return nil
}
