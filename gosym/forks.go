package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
)

// GOSYM_FORKS=1 tells where paths fork.
var (
	debugForks = os.Getenv("GOSYM_FORKS") != ""
	forkMu     sync.Mutex
	forkAt     = map[string]int{}
)

func countFork(at string) {
	forkMu.Lock()
	forkAt[at]++
	forkMu.Unlock()
}

func printForks() {
	if !debugForks {
		return
	}
	var ks []string
	for k := range forkAt {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forkAt[ks[i]] > forkAt[ks[j]] })
	for i := 0; i < len(ks) && i < 12; i++ {
		fmt.Fprintln(os.Stderr, "forks", forkAt[ks[i]], ks[i])
	}
	forkAt = map[string]int{}
}
