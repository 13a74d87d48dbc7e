// Package assemblyscript is a stub.
package assemblyscript

import "github.com/tetratelabs/wazero"

type FunctionExporter interface {
	WithAbortMessageDisabled() FunctionExporter
	WithTraceToStdout() FunctionExporter
	WithTraceToStderr() FunctionExporter
	ExportFunctions(wazero.HostModuleBuilder)
}

type fe struct{}

func NewFunctionExporter() FunctionExporter             { return fe{} }
func (f fe) WithAbortMessageDisabled() FunctionExporter { return f }
func (f fe) WithTraceToStdout() FunctionExporter        { return f }
func (f fe) WithTraceToStderr() FunctionExporter        { return f }
func (f fe) ExportFunctions(wazero.HostModuleBuilder)   {}
