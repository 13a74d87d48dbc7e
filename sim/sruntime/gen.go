// Code generated from runtime; the rest of the package is hand-written.

package sruntime

import orig "runtime"

var BlockProfile = orig.BlockProfile

type BlockProfileRecord = orig.BlockProfileRecord

var Breakpoint = orig.Breakpoint
var CPUProfile = orig.CPUProfile
var Caller = orig.Caller
var Callers = orig.Callers
var CallersFrames = orig.CallersFrames

type Cleanup = orig.Cleanup

const Compiler = orig.Compiler

type Error = orig.Error
type Frame = orig.Frame
type Frames = orig.Frames
type Func = orig.Func

var FuncForPC = orig.FuncForPC
var GC = orig.GC

const GOARCH = orig.GOARCH
const GOOS = orig.GOOS

var GOROOT = orig.GOROOT
var GoroutineProfile = orig.GoroutineProfile
var KeepAlive = orig.KeepAlive
var LockOSThread = orig.LockOSThread
var MemProfile = orig.MemProfile
var MemProfileRate = orig.MemProfileRate

type MemProfileRecord = orig.MemProfileRecord
type MemStats = orig.MemStats

var MutexProfile = orig.MutexProfile
var NumCPU = orig.NumCPU
var NumCgoCall = orig.NumCgoCall

type PanicNilError = orig.PanicNilError
type Pinner = orig.Pinner

var ReadMemStats = orig.ReadMemStats
var ReadTrace = orig.ReadTrace
var SetBlockProfileRate = orig.SetBlockProfileRate
var SetCPUProfileRate = orig.SetCPUProfileRate
var SetCgoTraceback = orig.SetCgoTraceback
var SetDefaultGOMAXPROCS = orig.SetDefaultGOMAXPROCS
var SetFinalizer = orig.SetFinalizer
var SetMutexProfileFraction = orig.SetMutexProfileFraction
var Stack = orig.Stack

type StackRecord = orig.StackRecord

var StartTrace = orig.StartTrace
var StopTrace = orig.StopTrace
var ThreadCreateProfile = orig.ThreadCreateProfile

type TypeAssertionError = orig.TypeAssertionError

var UnlockOSThread = orig.UnlockOSThread
var Version = orig.Version
