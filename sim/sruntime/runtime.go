package sruntime

import (
	"runtime"
	"vsim"
)

func Gosched()             { vsim.Gosched() }
func Goexit()              { runtime.Goexit() }
func NumGoroutine() int    { return vsim.NumG() }
func GOMAXPROCS(n int) int { return 8 }
