package mc

import (
	"fmt"
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	if os.Getenv("MC_ROLE") == "parent" {
		os.Exit(parentMain())
	}
	os.Exit(m.Run())
}

// TestMC is the body of the child processes (a test, because bubbles need one).
func TestMC(t *testing.T) {
	theT = t
	switch os.Getenv("MC_ROLE") {
	case "explore":
		exploreMain()
	case "replay":
		replayMain()
	case "race":
		c := lookup(os.Getenv("MC_ID"))
		if err := c.Race(os.Getenv("MC_TIER") == "thorough"); err != nil {
			fmt.Println("race body:", err)
			os.Exit(1)
		}
	}
}
