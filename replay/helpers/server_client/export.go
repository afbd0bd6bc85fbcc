package client

import "github.com/go-stomp/stomp/v3/frame"

// Access to a subscription for the replay harnesses.

func VerifSub(dest, id, ack string) (*Subscription, chan *Subscription, chan *frame.Frame) {
	c := &Conn{subChannel: make(chan *Subscription, 1000), writeChannel: make(chan *frame.Frame, 1000)}
	return newSubscription(c, dest, id, ack), c.subChannel, c.writeChannel
}

func VerifFrame(s *Subscription) *frame.Frame       { return s.frame }
func VerifSetFrame(s *Subscription, f *frame.Frame) { s.frame = f }
func VerifSetMsgId(s *Subscription, n uint64)       { s.msgId = n }
