// Package wasi_snapshot_preview1 is a stub.
package wasi_snapshot_preview1

import (
	"context"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"
)

const ModuleName = "wasi_snapshot_preview1"

type closer struct{}

func (closer) Close(context.Context) error { return nil }

func Instantiate(ctx context.Context, r wazero.Runtime) (api.Closer, error) { return closer{}, nil }
func MustInstantiate(ctx context.Context, r wazero.Runtime)                 {}
