// Code generated from os; the rest of the package is hand-written.

package sos

import orig "os"

var Args = orig.Args
var Chdir = orig.Chdir
var Chmod = orig.Chmod
var Chown = orig.Chown
var Chtimes = orig.Chtimes
var Clearenv = orig.Clearenv
var CopyFS = orig.CopyFS
var Create = orig.Create
var CreateTemp = orig.CreateTemp

const DevNull = orig.DevNull

type DirEntry = orig.DirEntry

var DirFS = orig.DirFS
var Environ = orig.Environ
var ErrClosed = orig.ErrClosed
var ErrDeadlineExceeded = orig.ErrDeadlineExceeded
var ErrExist = orig.ErrExist
var ErrInvalid = orig.ErrInvalid
var ErrNoDeadline = orig.ErrNoDeadline
var ErrNoHandle = orig.ErrNoHandle
var ErrNotExist = orig.ErrNotExist
var ErrPermission = orig.ErrPermission
var ErrProcessDone = orig.ErrProcessDone
var Executable = orig.Executable
var Expand = orig.Expand
var ExpandEnv = orig.ExpandEnv

type File = orig.File
type FileInfo = orig.FileInfo
type FileMode = orig.FileMode

var FindProcess = orig.FindProcess
var Getegid = orig.Getegid
var Geteuid = orig.Geteuid
var Getgid = orig.Getgid
var Getgroups = orig.Getgroups
var Getpagesize = orig.Getpagesize
var Getpid = orig.Getpid
var Getppid = orig.Getppid
var Getuid = orig.Getuid
var Getwd = orig.Getwd
var Hostname = orig.Hostname
var Interrupt = orig.Interrupt
var IsExist = orig.IsExist
var IsNotExist = orig.IsNotExist
var IsPathSeparator = orig.IsPathSeparator
var IsPermission = orig.IsPermission
var IsTimeout = orig.IsTimeout
var Kill = orig.Kill
var Lchown = orig.Lchown
var Link = orig.Link

type LinkError = orig.LinkError

var Mkdir = orig.Mkdir
var MkdirAll = orig.MkdirAll
var MkdirTemp = orig.MkdirTemp

const ModeAppend = orig.ModeAppend
const ModeCharDevice = orig.ModeCharDevice
const ModeDevice = orig.ModeDevice
const ModeDir = orig.ModeDir
const ModeExclusive = orig.ModeExclusive
const ModeIrregular = orig.ModeIrregular
const ModeNamedPipe = orig.ModeNamedPipe
const ModePerm = orig.ModePerm
const ModeSetgid = orig.ModeSetgid
const ModeSetuid = orig.ModeSetuid
const ModeSocket = orig.ModeSocket
const ModeSticky = orig.ModeSticky
const ModeSymlink = orig.ModeSymlink
const ModeTemporary = orig.ModeTemporary
const ModeType = orig.ModeType

var NewFile = orig.NewFile
var NewSyscallError = orig.NewSyscallError

const O_APPEND = orig.O_APPEND
const O_CREATE = orig.O_CREATE
const O_EXCL = orig.O_EXCL
const O_RDONLY = orig.O_RDONLY
const O_RDWR = orig.O_RDWR
const O_SYNC = orig.O_SYNC
const O_TRUNC = orig.O_TRUNC
const O_WRONLY = orig.O_WRONLY

var OpenInRoot = orig.OpenInRoot
var OpenRoot = orig.OpenRoot

type PathError = orig.PathError

const PathListSeparator = orig.PathListSeparator
const PathSeparator = orig.PathSeparator

var Pipe = orig.Pipe

type ProcAttr = orig.ProcAttr
type Process = orig.Process
type ProcessState = orig.ProcessState

var ReadDir = orig.ReadDir
var Readlink = orig.Readlink
var Remove = orig.Remove
var RemoveAll = orig.RemoveAll
var Rename = orig.Rename

type Root = orig.Root

const SEEK_CUR = orig.SEEK_CUR
const SEEK_END = orig.SEEK_END
const SEEK_SET = orig.SEEK_SET

var SameFile = orig.SameFile

type Signal = orig.Signal

var StartProcess = orig.StartProcess
var Stderr = orig.Stderr
var Stdin = orig.Stdin
var Stdout = orig.Stdout
var Symlink = orig.Symlink

type SyscallError = orig.SyscallError

var TempDir = orig.TempDir
var Truncate = orig.Truncate
var Unsetenv = orig.Unsetenv
var UserCacheDir = orig.UserCacheDir
var UserConfigDir = orig.UserConfigDir
var UserHomeDir = orig.UserHomeDir
var WriteFile = orig.WriteFile
