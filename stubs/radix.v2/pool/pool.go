// Package pool stands in for github.com/mediocregopher/radix.v2/pool over the in-memory server.
package pool

import "github.com/mediocregopher/radix.v2/redis"

type Pool struct {
	Network, Addr string
	Server        *redis.Server
}

func New(network, addr string, size int) (*Pool, error) {
	return &Pool{Network: network, Addr: addr, Server: &redis.Server{}}, nil
}

func (p *Pool) Get() (*redis.Client, error) {
	if p.Server.Fail != nil && p.Server.Fail("CONNECT", "") != 0 {
		return nil, redis.ErrDown
	}
	p.Server.Out++
	p.Server.Taken++
	return &redis.Client{Server: p.Server}, nil
}

func (p *Pool) Put(conn *redis.Client) { p.Server.Out-- }

func (p *Pool) Cmd(cmd string, args ...interface{}) *redis.Resp {
	c, err := p.Get()
	if err != nil {
		return redis.Failed(err)
	}
	defer p.Put(c)
	return c.Cmd(cmd, args...)
}

func (p *Pool) Empty()     {}
func (p *Pool) Avail() int { return 1 }
