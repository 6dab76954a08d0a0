// Command unit decides the properties of the library parts: codecs, TLV, text, events.
package main

import (
	"fmt"
	"os"

	"github.com/hrygo/log"
	"verif/lib"
)

var checks = map[string]func() *lib.Run{}

func main() {
	if len(os.Args) < 2 || checks[os.Args[1]] == nil {
		fmt.Println("unknown check")
		os.Exit(3)
	}
	f, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	log.ResetDefault(log.New(f, log.ErrorLevel))
	checks[os.Args[1]]().Finish()
}
