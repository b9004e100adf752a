package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
)

func main() {
	prop := flag.String("prop", "", "property to check")
	repo := flag.String("repo", "/repo", "tree to analyse")
	prof := flag.String("cpuprofile", "", "write a profile")
	flag.StringVar(&taskFilter, "task", "", "run only the tasks whose name contains this (debugging)")
	list := flag.Bool("list", false, "list the properties")
	flag.Parse()
	repoDir = *repo
	if *list {
		var ids []string
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	pr := properties[*prop]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
	}
	rc := runProperty(pr)
	pprof.StopCPUProfile()
	os.Exit(rc)
}

var taskFilter string
