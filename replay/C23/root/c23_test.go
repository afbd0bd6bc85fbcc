package stomp

import "testing"

func TestVerifReplayC23(t *testing.T) { vSim(t, 400) }
