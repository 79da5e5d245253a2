package main

import (
	"os"
	"runtime/pprof"
	"time"
)

func startProf() func() {
	f := os.Getenv("PROF")
	if f == "" {
		return func() {}
	}
	w, _ := os.Create(f)
	pprof.StartCPUProfile(w)
	stop := func() { pprof.StopCPUProfile(); w.Close() }
	if os.Getenv("PROFT") != "" {
		d, _ := time.ParseDuration(os.Getenv("PROFT"))
		go func() { time.Sleep(d); stop(); os.Exit(1) }()
	}
	return stop
}
