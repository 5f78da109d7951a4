//go:build go1.22

package main

import (
	"os"
	"os/signal"
)

func simSignals(s *System) {
	signal.SimNotify = func(c chan<- os.Signal, sig ...os.Signal) {
		s.mu.Lock()
		s.sigs = append(s.sigs, sigReg{c, append([]os.Signal(nil), sig...)})
		s.mu.Unlock()
	}
	signal.SimStop = func(c chan<- os.Signal) {
		s.mu.Lock()
		for i := range s.sigs {
			if s.sigs[i].c == c {
				s.sigs[i].sigs = []os.Signal{nil} // the index stays
			}
		}
		s.mu.Unlock()
	}
}
