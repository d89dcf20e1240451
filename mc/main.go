package main

import (
	"fmt"

	"verif/mc/engine"
	"verif/mc/instr"
	_ "verif/mc/props"
	"verif/mc/ref"
)

func main() {
	engine.Sub["instrument"] = func(a []string) int {
		if err := instr.Main(a[0], a[1]); err != nil {
			fmt.Println(err)
			return 2
		}
		return 0
	}
	engine.Main(ref.SelfTest)
}
