package scrand

import (
	"io"
	"math/big"
	"vsim"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(vsim.Rand64())
	}
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return io.ReadFull(Reader, p) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	return new(big.Int).Mod(new(big.Int).SetUint64(vsim.Rand64()), max), nil
}
