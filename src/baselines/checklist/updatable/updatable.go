// Package updatable is a stand-in: it asks both servers and records every call.
package updatable

import (
	"errors"
	"math/rand"
	"time"

	"checklist/pir"
	"checklist/vb"
)

// UpdatableServer is what the client needs of a server.
type UpdatableServer interface {
	Serve(i int, key uint32)
}

// Client reads keys from two servers.
type Client struct {
	CallAsync bool
	servers   [2]UpdatableServer
	n         int
	ready     bool
	t         pir.PirType
}

// NewClient makes a client.
func NewClient(src *rand.Rand, t pir.PirType, servers [2]UpdatableServer) *Client {
	return &Client{servers: servers, t: t}
}

// Init fetches the hint.
func (c *Client) Init() error {
	vb.Log("init %s", c.t)
	if vb.C.InitFail {
		return errors.New("no hint")
	}
	c.ready = true
	return nil
}

// Keys of the database.
func (c *Client) Keys() []uint32 { return append([]uint32(nil), vb.C.Keys...) }

// Read one key.
func (c *Client) Read(key uint32) (pir.Row, error) {
	i := c.n
	c.n++
	if vb.C.DelayUs > 0 {
		time.Sleep(time.Duration(vb.C.DelayUs) * time.Microsecond)
	}
	if !c.ready {
		vb.Log("unready %d", key)
	}
	c.servers[0].Serve(i, key)
	c.servers[1].Serve(i, key)
	for _, f := range vb.C.Fail {
		if f == i {
			vb.Log("read %d fail", key)
			return nil, errors.New("cannot read")
		}
	}
	vb.Log("read %d ok", key)
	return pir.Row{1}, nil
}
