package stomp

import (
	"testing"
	"time"
)

func TestVerifReplayC22(t *testing.T) {
	// the receipt of an UNSUBSCRIBE is the one that ends the subscription
	c, p := vDial(t, "1.2")
	s, err := c.Subscribe("/q", AckAuto)
	if err != nil {
		t.Fatal(err)
	}
	go s.Unsubscribe(SubscribeOpt.Header("receipt", "own"))
	if !p.waitFrames(2) || vGet(p.frame(1), "receipt") != s.Id() {
		t.Fatalf("FAILING INPUT: Unsubscribe with an option that sets a receipt: the frame asks for the receipt %q, not %q", vGet(p.frame(1), "receipt"), s.Id())
	}
	c.MustDisconnect()
	// the receipt of a SUBSCRIBE does not end the subscription
	c, p = vDial(t, "1.2")
	s, err = c.Subscribe("/q", AckAuto, SubscribeOpt.Header("receipt", "own"), SubscribeOpt.Id("s1"))
	if err != nil {
		t.Fatal(err)
	}
	// the answer to SUBSCRIBE is a RECEIPT, the answer to SEND confirms that it was processed
	c.Send("/q", "", nil, SendOpt.Receipt)
	select {
	case m, ok := <-s.C:
		t.Fatalf("FAILING INPUT: Subscribe with an option that sets a receipt: once the server confirms the subscription its channel yields %v, %v", m, ok)
	case <-time.After(200 * time.Millisecond):
	}
	if !s.Active() {
		t.Fatalf("FAILING INPUT: Subscribe with an option that sets a receipt: the subscription is not active once the server confirms it")
	}
	c.MustDisconnect()
	vSim(t, 400)
}
