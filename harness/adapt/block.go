package adapt

import (
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"vsim/nx"
)

// BlockOne blocks on a single value.
func BlockOne(s nx.Single) (nx.Msg, error) {
	p, err := s.Raw().(mono.Mono[payload.Payload]).Block()
	if err != nil {
		return nx.Msg{}, err
	}
	return M(p), nil
}

// BlockSeq blocks on a sequence.
func BlockSeq(s nx.Seq, r nx.Rcv) error {
	return s.Raw().(flux.Flux[payload.Payload]).Block(Rcv(r))
}
