package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) > 1 {
		repo, verif := os.Getenv("GOVC_REPO"), os.Getenv("GOVC_VERIF")
		if repo == "" {
			repo = "/repo/lib/go/src/thrift"
		}
		if verif == "" {
			verif = "/verif"
		}
		switch os.Args[1] {
		case "check":
			tier := os.Getenv("VERIF_TIER")
			if len(os.Args) > 3 {
				tier = os.Args[3]
			}
			if tier != "thorough" {
				tier = "quick"
			}
			os.Exit(checkMain(os.Args[2], tier, repo, verif))
		case "replay":
			os.Exit(replayMain(os.Args[2], repo, verif))
		}
	}
	def := os.Getenv("GOVC_REPO")
	if def == "" {
		def = "/repo/lib/go/src/thrift"
	}
	repo := flag.String("repo", def, "library directory")
	ctrs := flag.String("contracts", "/verif/contracts", "contract files")
	name := flag.String("c", "", "contracts to run (substring)")
	inline := flag.Bool("inline", false, "inline callees")
	sec := flag.Int("t", 120, "seconds per contract")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	t0 := time.Now()
	e, err := Load(*repo, *ctrs)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e.verbose = *verbose
	fmt.Println("loaded", time.Since(t0), e.dropped)
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var mu sync.Mutex
	for _, c := range e.contracts {
		if !strings.Contains(c.Name, *name) {
			continue
		}
		wg.Add(1)
		sem <- true
		go func(c *Contract) {
			defer func() { <-sem; wg.Done() }()
			r := newRun(e, c)
			r.inline = *inline
			r.useInv = c.has("inv")
			r.deadline = time.Now().Add(time.Duration(*sec) * time.Second)
			res := r.verify()
			mu.Lock()
			defer mu.Unlock()
			fmt.Printf("%-8s %-30s ret=%d paths=%d steps=%d q=%d %v/%v %s demote=%v\n", res.Status, c.Name, res.Returns, res.Paths, res.Steps, res.Queries, res.SolTime.Round(time.Millisecond), res.Time.Round(time.Millisecond), res.Err, res.Demote)
			if *verbose {
				fmt.Println("    uses", res.UsedC, "inlines", res.Inlined)
			}
			for _, f := range res.Fails {
				fmt.Printf("    %s: %s [%s] %s\n", f.Name, f.Msg, f.Res, f.Pos)
			}
		}(c)
	}
	wg.Wait()
}
