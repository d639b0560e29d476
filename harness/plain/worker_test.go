package plain

import (
	"testing"

	"dripverif/engine"
)

func TestWorker(t *testing.T) { engine.Worker(t) }
