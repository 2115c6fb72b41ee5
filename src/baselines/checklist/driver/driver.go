// Package driver is a stand-in for checklist/driver.
package driver

import (
	"errors"
	"flag"
	"os"
	"sync"
	"time"

	"checklist/pir"
	"checklist/vb"
)

// Config of a client.
type Config struct {
	FlagSet     *flag.FlagSet
	PirType     pir.PirType
	ServerAddr  string
	ServerAddr2 string
	RowLen      int
	UseTLS      bool
	NumRows     int
	pirType     string
}

func (c *Config) fs() *flag.FlagSet {
	if c.FlagSet == nil {
		c.FlagSet = flag.NewFlagSet("main", flag.ExitOnError)
	}
	return c.FlagSet
}

// AddPirFlags registers the flags of the scheme.
func (c *Config) AddPirFlags() *Config {
	c.fs().StringVar(&c.pirType, "pirType", "Punc", "scheme")
	c.fs().IntVar(&c.RowLen, "rowLen", 32, "bytes per row")
	c.fs().IntVar(&c.NumRows, "numRows", 1000, "rows")
	return c
}

// AddClientFlags registers the flags of a client.
func (c *Config) AddClientFlags() *Config {
	c.fs().StringVar(&c.ServerAddr, "serverAddr", "", "first server")
	c.fs().StringVar(&c.ServerAddr2, "serverAddr2", "", "second server")
	c.fs().BoolVar(&c.UseTLS, "tls", true, "use TLS")
	return c
}

// Parse the command line.
func (c *Config) Parse() *Config {
	c.fs().Parse(os.Args[1:])
	c.PirType = pir.PirType(c.pirType)
	vb.Log("flags rowLen=%d tls=%v", c.RowLen, c.UseTLS)
	return c
}

// Proxy of a server.
type Proxy struct {
	which int
	mu    sync.Mutex
	spent time.Duration
	bytes int
}

func (c *Config) connect(which int, addr string) (*Proxy, error) {
	vb.Log("connect %d %s", which, addr)
	if vb.C.ConnFail == which {
		return nil, errors.New("connection refused")
	}
	return &Proxy{which: which}, nil
}

// ServerDriver connects to the first server.
func (c *Config) ServerDriver() (*Proxy, error) { return c.connect(1, c.ServerAddr) }

// Server2Driver connects to the second server.
func (c *Config) Server2Driver() (*Proxy, error) {
	a := c.ServerAddr2
	if a == "" {
		a = c.ServerAddr
	}
	return c.connect(2, a)
}

// Serve one query.
func (p *Proxy) Serve(i int, key uint32) {
	p.mu.Lock()
	defer p.mu.Unlock()
	k := vb.C.Cost[p.which-1]
	p.spent += time.Duration(k[i%len(k)])
	p.bytes += 7*p.which + i%5
	vb.Log("serve %d %d %v %d", p.which, key, p.spent, p.bytes)
}

// GetOnlineTimer tells the time spent on queries.
func (p *Proxy) GetOnlineTimer(_ int, out *time.Duration) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	vb.Log("timer %d", p.which)
	*out = p.spent
	return nil
}

// GetOnlineBytes tells the bytes sent for queries.
func (p *Proxy) GetOnlineBytes(_ int, out *int) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	*out = p.bytes
	return nil
}
