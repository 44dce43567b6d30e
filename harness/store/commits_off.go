//go:build !zvcommits

package main

const commitHook = false

func killAtCommit(m, n int, wantAfter bool) (reset func()) { return func() {} }
