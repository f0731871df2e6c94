package main

import (
	"mc/checks"
	"mc/eng"
)

func main() {
	if !checks.Restarted() {
		eng.Main()
	}
}
