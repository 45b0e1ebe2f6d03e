package main

import (
	"fmt"
	"os"
)

func init() {
	if os.Getenv("VERIF_ECHO") != "" {
		echoSteps = true
	}
}

var echoSteps bool

func echo(format string, a ...any) {
	if echoSteps {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}
