//go:build go1.22

package main

import (
	"github.com/hound-search/hound/zsim"
	simos "github.com/hound-search/hound/zsim/shim/os"
	"github.com/hound-search/hound/zsim/h"
	hound "github.com/hound-search/hound/zsim/prog/hound"
	houndd "github.com/hound-search/hound/zsim/prog/houndd"
)

func main() {
	h.HounddMain = func() { args(); houndd.Main_() }
	h.HoundMain = func() { args(); hound.Main_() }
	h.Main()
}

func args() { simos.Args = zsim.CurProc().Args }
