// Code generated from net; the rest of the package is hand-written.

package snet

import orig "net"

type Addr = orig.Addr
type AddrError = orig.AddrError
type Buffers = orig.Buffers

var CIDRMask = orig.CIDRMask

type Conn = orig.Conn
type DNSConfigError = orig.DNSConfigError
type DNSError = orig.DNSError

var DefaultResolver = orig.DefaultResolver
var DialIP = orig.DialIP
var DialUDP = orig.DialUDP
var DialUnix = orig.DialUnix
var ErrClosed = orig.ErrClosed
var ErrWriteToConnected = orig.ErrWriteToConnected

type Error = orig.Error

var FileConn = orig.FileConn
var FileListener = orig.FileListener
var FilePacketConn = orig.FilePacketConn

const FlagBroadcast = orig.FlagBroadcast
const FlagLoopback = orig.FlagLoopback
const FlagMulticast = orig.FlagMulticast
const FlagPointToPoint = orig.FlagPointToPoint
const FlagRunning = orig.FlagRunning
const FlagUp = orig.FlagUp

type Flags = orig.Flags
type HardwareAddr = orig.HardwareAddr
type IP = orig.IP
type IPAddr = orig.IPAddr
type IPConn = orig.IPConn
type IPMask = orig.IPMask
type IPNet = orig.IPNet

var IPv4 = orig.IPv4
var IPv4Mask = orig.IPv4Mask
var IPv4allrouter = orig.IPv4allrouter
var IPv4allsys = orig.IPv4allsys
var IPv4bcast = orig.IPv4bcast

const IPv4len = orig.IPv4len

var IPv4zero = orig.IPv4zero
var IPv6interfacelocalallnodes = orig.IPv6interfacelocalallnodes

const IPv6len = orig.IPv6len

var IPv6linklocalallnodes = orig.IPv6linklocalallnodes
var IPv6linklocalallrouters = orig.IPv6linklocalallrouters
var IPv6loopback = orig.IPv6loopback
var IPv6unspecified = orig.IPv6unspecified
var IPv6zero = orig.IPv6zero

type Interface = orig.Interface

var InterfaceAddrs = orig.InterfaceAddrs
var InterfaceByIndex = orig.InterfaceByIndex
var InterfaceByName = orig.InterfaceByName
var Interfaces = orig.Interfaces

type InvalidAddrError = orig.InvalidAddrError

var JoinHostPort = orig.JoinHostPort

type KeepAliveConfig = orig.KeepAliveConfig

var ListenIP = orig.ListenIP
var ListenMulticastUDP = orig.ListenMulticastUDP
var ListenPacket = orig.ListenPacket
var ListenUDP = orig.ListenUDP
var ListenUnix = orig.ListenUnix
var ListenUnixgram = orig.ListenUnixgram

type Listener = orig.Listener

var LookupAddr = orig.LookupAddr
var LookupCNAME = orig.LookupCNAME
var LookupHost = orig.LookupHost
var LookupIP = orig.LookupIP
var LookupMX = orig.LookupMX
var LookupNS = orig.LookupNS
var LookupPort = orig.LookupPort
var LookupSRV = orig.LookupSRV
var LookupTXT = orig.LookupTXT

type MX = orig.MX
type NS = orig.NS
type OpError = orig.OpError
type PacketConn = orig.PacketConn

var ParseCIDR = orig.ParseCIDR

type ParseError = orig.ParseError

var ParseIP = orig.ParseIP
var ParseMAC = orig.ParseMAC
var ResolveIPAddr = orig.ResolveIPAddr
var ResolveTCPAddr = orig.ResolveTCPAddr
var ResolveUDPAddr = orig.ResolveUDPAddr
var ResolveUnixAddr = orig.ResolveUnixAddr

type Resolver = orig.Resolver
type SRV = orig.SRV

var SplitHostPort = orig.SplitHostPort

type TCPAddr = orig.TCPAddr

var TCPAddrFromAddrPort = orig.TCPAddrFromAddrPort

type TCPConn = orig.TCPConn
type TCPListener = orig.TCPListener
type UDPAddr = orig.UDPAddr

var UDPAddrFromAddrPort = orig.UDPAddrFromAddrPort

type UDPConn = orig.UDPConn
type UnixAddr = orig.UnixAddr
type UnixConn = orig.UnixConn
type UnixListener = orig.UnixListener
type UnknownNetworkError = orig.UnknownNetworkError
