package main

import "github.com/clipperhouse/uax29/v2/verifmon/harness"

func main() {
	harness.Main(map[string]func([]string) int{"round": freshRound})
}
