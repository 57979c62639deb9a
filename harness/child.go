package main

import (
	"encoding/json"
	"io"
	"os"
	"os/signal"
	"syscall"
	"time"
)

// The programs that Commands start: scripted children which report what they see.

type chunk struct {
	FD    int
	Data  []byte
	Sleep int    // microseconds, before
	File  string // append to this file instead
}

type childSpec struct {
	Index      int
	Log        string
	Chunks     []chunk
	Exit       int
	Signal     int
	ReadStdin  bool
	IgnoreTerm bool
	WaitFor    string // go on only when this file exists
	Create     string // file to create at the end
	End        bool   // log the end
}

type childReport struct {
	Index int
	Phase string
	Argv  []string
	Env   []string
	Cwd   string
	Stdin []byte
	Pid   int
}

func helperChild(args []string) {
	var s childSpec
	must(json.Unmarshal(must1(os.ReadFile(args[0])), &s))
	if s.IgnoreTerm {
		signal.Ignore(syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP)
	}
	log := func(r childReport) {
		if s.Log == "" {
			return
		}
		f := must1(os.OpenFile(s.Log, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644))
		j, _ := json.Marshal(r)
		must1(f.Write(append(j, '\n')))
		f.Close()
	}
	rep := childReport{Index: s.Index, Phase: "start", Argv: os.Args, Env: os.Environ(), Pid: os.Getpid()}
	rep.Cwd, _ = os.Readlink("/proc/self/cwd")
	if s.ReadStdin {
		rep.Stdin, _ = io.ReadAll(os.Stdin)
	}
	log(rep)
	for _, c := range s.Chunks {
		if c.Sleep > 0 {
			time.Sleep(time.Duration(c.Sleep) * time.Microsecond)
		}
		if c.File != "" {
			f := must1(os.OpenFile(c.File, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644))
			must1(f.Write(c.Data))
			f.Close()
			continue
		}
		b := c.Data
		for len(b) > 0 {
			n, err := syscall.Write(c.FD, b)
			if err == syscall.EINTR {
				continue
			}
			if err != nil {
				os.Exit(99)
			}
			b = b[n:]
		}
	}
	if s.WaitFor != "" {
		for !exists(s.WaitFor) {
			time.Sleep(2 * time.Millisecond)
		}
	}
	if s.Create != "" {
		must(os.WriteFile(s.Create, []byte("made"), 0644))
	}
	if s.End {
		log(childReport{Index: s.Index, Phase: "end", Pid: os.Getpid()})
	}
	if s.Signal != 0 {
		signal.Reset()
		syscall.Kill(os.Getpid(), syscall.Signal(s.Signal))
		time.Sleep(10 * time.Second)
	}
	os.Exit(s.Exit)
}
