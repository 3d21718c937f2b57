// The worker: runs one shard of one property's enumeration.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"gopkg.in/addrs.v1/zzverif/h4"
	"gopkg.in/addrs.v1/zzverif/h6"
	"gopkg.in/addrs.v1/zzverif/hip"
	"gopkg.in/addrs.v1/zzverif/rt"
)

// The properties whose explorations are repeated with 32 bit ints, and the
// parts of them that are left to the thorough tier.
var (
	smallInt     = strings.Fields("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C14 C15 C16 C17 C18 C21 C22 C23 C24 C27")
	smallIntLong = map[string]bool{
		"C01 large and deep sets": true, "C01 all pairs of sets over 8 scattered points": true,
		"C14 tables over a tree of 15 prefixes": true, "C15 tables over a tree of 15 prefixes": true,
		"C01 questions again after modifications": true, "C10 questions again after modifications": true,
		"C12 questions again after modifications": true,
	}
)

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard")
	nshard := flag.Int("nshard", 1, "number of shards")
	task := flag.String("task", "", "only this task")
	only := flag.Int64("only", -1, "only this case")
	budget := flag.Duration("budget", 4*time.Minute, "time budget")
	shm := flag.String("shm", "", "progress file")
	out := flag.String("out", "/dev/stdout", "result file")
	list := flag.Bool("list", false, "list the tasks")
	flag.Parse()
	if w := os.Getenv(h4.DigestEnv); w != "" {
		lines := h4.Digest
		if w == "128" {
			lines = h6.Digest
		}
		for _, l := range lines() {
			fmt.Println(l)
		}
		return
	}
	if *prop == "C19" || *prop == "C20" || *prop == "C30" {
		runtime.GOMAXPROCS(1) // for the controlled scheduler, or many collections
	} else {
		runtime.GOMAXPROCS(2)
	}
	debug.SetGCPercent(400)
	props, maxHeap := []string{*prop}, uint64(3<<30)
	if *prop == "C29" {
		// built for a platform where int has 32 bits
		if strconv.IntSize != 32 && os.Getenv("VH_ANY_INT") == "" {
			fmt.Fprintln(os.Stderr, "C29 needs a build with 32 bit ints")
			os.Exit(9)
		}
		props, maxHeap = smallInt, 1<<30
		if *tier == "thorough" {
			smallIntLong = nil
		}
		*tier = "quick" // the bounds of the tasks
	}
	var tasks []rt.Task
	for _, p := range props {
		ts := append(append(hip.Tasks(p), h4.Tasks(p)...), h6.Tasks(p)...)
		sort.SliceStable(ts, func(i, j int) bool { return ts[i].Name[5:] < ts[j].Name[5:] })
		for _, t := range ts {
			if p != *prop {
				name := p + " " + t.Name[5:]
				if smallIntLong[name] {
					continue
				}
				t.Name = t.Name[:5] + name
			}
			tasks = append(tasks, t)
		}
	}
	if *list {
		for _, t := range tasks {
			fmt.Println(t.Name)
		}
		return
	}
	if len(tasks) == 0 {
		fmt.Fprintln(os.Stderr, "no tasks for", *prop)
		os.Exit(9)
	}
	rt.Run(tasks, rt.Options{Thorough: *tier == "thorough", Seed: *seed, Shard: *shard, NShard: *nshard,
		Only: *only, OnlyTask: *task, Budget: *budget, ShmPath: *shm, OutPath: *out,
		HangCPU: 60 * time.Second, HangWall: 90 * time.Second, MaxHeap: maxHeap})
}
