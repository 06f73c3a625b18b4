// Code generated by genalias; re-exports package net.

package simnet

import x "net"

type Addr = x.Addr
type AddrError = x.AddrError
type Buffers = x.Buffers

var CIDRMask = x.CIDRMask

type Conn = x.Conn
type DNSConfigError = x.DNSConfigError
type DNSError = x.DNSError

var DefaultResolver = x.DefaultResolver
var DialIP = x.DialIP
var DialUDP = x.DialUDP
var DialUnix = x.DialUnix
var ErrClosed = x.ErrClosed
var ErrWriteToConnected = x.ErrWriteToConnected

type Error = x.Error

var FileConn = x.FileConn
var FileListener = x.FileListener
var FilePacketConn = x.FilePacketConn

const FlagBroadcast = x.FlagBroadcast
const FlagLoopback = x.FlagLoopback
const FlagMulticast = x.FlagMulticast
const FlagPointToPoint = x.FlagPointToPoint
const FlagRunning = x.FlagRunning
const FlagUp = x.FlagUp

type Flags = x.Flags
type HardwareAddr = x.HardwareAddr
type IP = x.IP
type IPAddr = x.IPAddr
type IPConn = x.IPConn
type IPMask = x.IPMask
type IPNet = x.IPNet

var IPv4 = x.IPv4
var IPv4Mask = x.IPv4Mask
var IPv4allrouter = x.IPv4allrouter
var IPv4allsys = x.IPv4allsys
var IPv4bcast = x.IPv4bcast

const IPv4len = x.IPv4len

var IPv4zero = x.IPv4zero
var IPv6interfacelocalallnodes = x.IPv6interfacelocalallnodes

const IPv6len = x.IPv6len

var IPv6linklocalallnodes = x.IPv6linklocalallnodes
var IPv6linklocalallrouters = x.IPv6linklocalallrouters
var IPv6loopback = x.IPv6loopback
var IPv6unspecified = x.IPv6unspecified
var IPv6zero = x.IPv6zero

type Interface = x.Interface

var InterfaceAddrs = x.InterfaceAddrs
var InterfaceByIndex = x.InterfaceByIndex
var InterfaceByName = x.InterfaceByName
var Interfaces = x.Interfaces

type InvalidAddrError = x.InvalidAddrError

var JoinHostPort = x.JoinHostPort

type KeepAliveConfig = x.KeepAliveConfig

var ListenIP = x.ListenIP
var ListenMulticastUDP = x.ListenMulticastUDP
var ListenPacket = x.ListenPacket
var ListenUDP = x.ListenUDP
var ListenUnix = x.ListenUnix
var ListenUnixgram = x.ListenUnixgram

type Listener = x.Listener

var LookupAddr = x.LookupAddr
var LookupCNAME = x.LookupCNAME
var LookupHost = x.LookupHost
var LookupIP = x.LookupIP
var LookupMX = x.LookupMX
var LookupNS = x.LookupNS
var LookupPort = x.LookupPort
var LookupSRV = x.LookupSRV
var LookupTXT = x.LookupTXT

type MX = x.MX
type NS = x.NS
type OpError = x.OpError
type PacketConn = x.PacketConn

var ParseCIDR = x.ParseCIDR

type ParseError = x.ParseError

var ParseIP = x.ParseIP
var ParseMAC = x.ParseMAC
var Pipe = x.Pipe
var ResolveIPAddr = x.ResolveIPAddr
var ResolveTCPAddr = x.ResolveTCPAddr
var ResolveUDPAddr = x.ResolveUDPAddr
var ResolveUnixAddr = x.ResolveUnixAddr

type SRV = x.SRV

var SplitHostPort = x.SplitHostPort

type TCPAddr = x.TCPAddr

var TCPAddrFromAddrPort = x.TCPAddrFromAddrPort

type UDPAddr = x.UDPAddr

var UDPAddrFromAddrPort = x.UDPAddrFromAddrPort

type UDPConn = x.UDPConn
type UnixAddr = x.UnixAddr
type UnixConn = x.UnixConn
type UnixListener = x.UnixListener
type UnknownNetworkError = x.UnknownNetworkError
