//go:build go1.21

package fakekafka

import (
	"crypto/sha256"
	"crypto/sha512"
	"fmt"

	"github.com/xdg/scram"
)

type saslConf struct {
	mech, user, pass string
	server           *scram.Server
	// what was observed
	Handshakes []string
	OK, Failed int
}

type connState struct {
	authed bool
	conv   *scram.ServerConversation
	mech   string
}

// RequireSASL makes every broker demand authentication.
func (c *Cluster) RequireSASL(mech, user, pass string) {
	s := &saslConf{mech: mech, user: user, pass: pass}
	var gen scram.HashGeneratorFcn = sha256.New
	if mech == "SCRAM-SHA-512" {
		gen = sha512.New
	}
	if mech != "PLAIN" {
		cl, err := gen.NewClient(user, pass, "")
		if err != nil {
			panic(err)
		}
		cred := cl.GetStoredCredentials(scram.KeyFactors{Salt: "salty" + user, Iters: 4096})
		s.server, err = gen.NewServer(func(u string) (scram.StoredCredentials, error) {
			if u != user {
				return scram.StoredCredentials{}, fmt.Errorf("unknown user %q", u)
			}
			return cred, nil
		})
		if err != nil {
			panic(err)
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.sasl = s
}

// SASL returns how many authentications succeeded and failed.
func (c *Cluster) SASL() (ok, failed int, handshakes []string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.sasl.OK, c.sasl.Failed, append([]string{}, c.sasl.Handshakes...)
}

func (c *Cluster) saslHandshake(ver int16, r *reader, w *writer, st *connState) bool {
	st.mech = r.str()
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sasl == nil {
		return true
	}
	c.sasl.Handshakes = append(c.sasl.Handshakes, st.mech)
	if st.mech != c.sasl.mech {
		w.i16(33)
	} else {
		w.i16(0)
	}
	w.i32(1)
	w.str(c.sasl.mech)
	return false
}

func (c *Cluster) saslAuth(ver int16, r *reader, w *writer, st *connState) bool {
	msg := append([]byte{}, r.bytes()...)
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sasl == nil || st.mech != c.sasl.mech {
		return true
	}
	fail := func() {
		c.sasl.Failed++
		w.i16(58)
		w.str("authentication failed")
		w.bytes(nil)
	}
	if st.conv == nil {
		st.conv = c.sasl.server.NewConversation()
	}
	resp, err := st.conv.Step(string(msg))
	if err != nil {
		fail()
		return false
	}
	if st.conv.Done() && st.conv.Valid() {
		st.authed = true
		c.sasl.OK++
	}
	w.i16(0)
	w.i16(-1)
	w.bytes([]byte(resp))
	return false
}

func (c *Cluster) plainAuth(msg []byte, st *connState) ([]byte, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if string(msg) != "\x00"+c.sasl.user+"\x00"+c.sasl.pass {
		c.sasl.Failed++
		return nil, true
	}
	st.authed = true
	c.sasl.OK++
	return make([]byte, 4), false
}
