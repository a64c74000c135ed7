package sim

import (
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	switch os.Getenv("SIM_MODE") {
	case "":
		os.Exit(parentMain())
	}
	os.Exit(m.Run())
}

func TestWorker(t *testing.T) { workerMain(t) }
