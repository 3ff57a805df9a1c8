// Command mc runs one model-checking check: mc <property id>.
package main

import (
	"fmt"
	"os"

	"vmc/eng"
	_ "vmc/props"
)

func main() {
	root := os.Getenv("VMC_ROOT")
	if root == "" {
		root = "/verif"
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: mc ID | mc child ID | mc list")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "list":
		for _, id := range eng.IDs() {
			fmt.Println(id)
		}
	case "child":
		c := eng.Get(os.Args[2])
		if c == nil {
			fmt.Println("unknown check", os.Args[2])
			os.Exit(3)
		}
		limitMemory()
		os.Exit(eng.Execute(c, root))
	case "sub":
		os.Exit(eng.Sub[os.Args[2]](os.Args[3:]))
	default:
		if eng.Get(os.Args[1]) == nil {
			fmt.Println("unknown check", os.Args[1])
			os.Exit(3)
		}
		os.Exit(eng.Parent(os.Args[1], root))
	}
}
