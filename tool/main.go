package main

import (
	"fmt"
	"os"
	"strings"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "gen" {
		pkgs, fset, err := loadRepo("/repo")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		vac := os.Getenv("VACUITY") != ""
		sp, err := loadSpecs("/verif/specs", os.Args[3:])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		g := newGen(sp, pkgs, fset)
		txt, res, _ := g.generate(vac)
		for _, r := range res {
			if r.err != "" {
				fmt.Println("TRANSLATE", r.key, r.err)
			}
		}
		os.WriteFile(os.Args[2], []byte(txt), 0o644)
		fmt.Println(strings.Count(txt, "\n"), "lines")
		return
	}
	if len(os.Args) == 2 && os.Args[1] == "names" {
		// records the names of the local variables the specs were written for
		pkgs, _, err := loadSource("/repo", nil)
		if err == nil {
			err = writeNames(pkgs)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(check(os.Args[2], tier))
	}
	fmt.Println("usage: gocv gen OUT.rs SPEC... | gocv check ID [quick|thorough]")
	os.Exit(2)
}
