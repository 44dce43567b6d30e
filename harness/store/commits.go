//go:build zvcommits

package main

import (
	"os"
	"sync"
	"syscall"

	"github.com/dgraph-io/badger/v4"
)

const commitHook = true

// killAtCommit ends the process at a commit of the key-value store: the n-th one
// after the first m that carry more than a label or a number. It returns a
// function that forgets what was counted so far.
func killAtCommit(m, n int, wantAfter bool) (reset func()) {
	var mu sync.Mutex
	big, rest := 0, 0
	armed := false
	badger.VerifCommit = func(size int, after bool) {
		mu.Lock()
		defer mu.Unlock()
		if !armed {
			return
		}
		if big >= m && after == wantAfter {
			rest++
			if rest >= n {
				syscall.Kill(os.Getpid(), syscall.SIGKILL)
				select {}
			}
		}
		if after && size > 256 {
			big++
		}
	}
	return func() {
		mu.Lock()
		big, rest, armed = 0, 0, true
		mu.Unlock()
	}
}
