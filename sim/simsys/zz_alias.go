// Code generated by genalias; re-exports package syscall.

package simsys

import x "syscall"

const AF_ALG = x.AF_ALG
const AF_APPLETALK = x.AF_APPLETALK
const AF_ASH = x.AF_ASH
const AF_ATMPVC = x.AF_ATMPVC
const AF_ATMSVC = x.AF_ATMSVC
const AF_AX25 = x.AF_AX25
const AF_BLUETOOTH = x.AF_BLUETOOTH
const AF_BRIDGE = x.AF_BRIDGE
const AF_CAIF = x.AF_CAIF
const AF_CAN = x.AF_CAN
const AF_DECnet = x.AF_DECnet
const AF_ECONET = x.AF_ECONET
const AF_FILE = x.AF_FILE
const AF_IEEE802154 = x.AF_IEEE802154
const AF_INET = x.AF_INET
const AF_INET6 = x.AF_INET6
const AF_IPX = x.AF_IPX
const AF_IRDA = x.AF_IRDA
const AF_ISDN = x.AF_ISDN
const AF_IUCV = x.AF_IUCV
const AF_KEY = x.AF_KEY
const AF_LLC = x.AF_LLC
const AF_LOCAL = x.AF_LOCAL
const AF_MAX = x.AF_MAX
const AF_NETBEUI = x.AF_NETBEUI
const AF_NETLINK = x.AF_NETLINK
const AF_NETROM = x.AF_NETROM
const AF_PACKET = x.AF_PACKET
const AF_PHONET = x.AF_PHONET
const AF_PPPOX = x.AF_PPPOX
const AF_RDS = x.AF_RDS
const AF_ROSE = x.AF_ROSE
const AF_ROUTE = x.AF_ROUTE
const AF_RXRPC = x.AF_RXRPC
const AF_SECURITY = x.AF_SECURITY
const AF_SNA = x.AF_SNA
const AF_TIPC = x.AF_TIPC
const AF_UNIX = x.AF_UNIX
const AF_UNSPEC = x.AF_UNSPEC
const AF_WANPIPE = x.AF_WANPIPE
const AF_X25 = x.AF_X25
const ARPHRD_ADAPT = x.ARPHRD_ADAPT
const ARPHRD_APPLETLK = x.ARPHRD_APPLETLK
const ARPHRD_ARCNET = x.ARPHRD_ARCNET
const ARPHRD_ASH = x.ARPHRD_ASH
const ARPHRD_ATM = x.ARPHRD_ATM
const ARPHRD_AX25 = x.ARPHRD_AX25
const ARPHRD_BIF = x.ARPHRD_BIF
const ARPHRD_CHAOS = x.ARPHRD_CHAOS
const ARPHRD_CISCO = x.ARPHRD_CISCO
const ARPHRD_CSLIP = x.ARPHRD_CSLIP
const ARPHRD_CSLIP6 = x.ARPHRD_CSLIP6
const ARPHRD_DDCMP = x.ARPHRD_DDCMP
const ARPHRD_DLCI = x.ARPHRD_DLCI
const ARPHRD_ECONET = x.ARPHRD_ECONET
const ARPHRD_EETHER = x.ARPHRD_EETHER
const ARPHRD_ETHER = x.ARPHRD_ETHER
const ARPHRD_EUI64 = x.ARPHRD_EUI64
const ARPHRD_FCAL = x.ARPHRD_FCAL
const ARPHRD_FCFABRIC = x.ARPHRD_FCFABRIC
const ARPHRD_FCPL = x.ARPHRD_FCPL
const ARPHRD_FCPP = x.ARPHRD_FCPP
const ARPHRD_FDDI = x.ARPHRD_FDDI
const ARPHRD_FRAD = x.ARPHRD_FRAD
const ARPHRD_HDLC = x.ARPHRD_HDLC
const ARPHRD_HIPPI = x.ARPHRD_HIPPI
const ARPHRD_HWX25 = x.ARPHRD_HWX25
const ARPHRD_IEEE1394 = x.ARPHRD_IEEE1394
const ARPHRD_IEEE802 = x.ARPHRD_IEEE802
const ARPHRD_IEEE80211 = x.ARPHRD_IEEE80211
const ARPHRD_IEEE80211_PRISM = x.ARPHRD_IEEE80211_PRISM
const ARPHRD_IEEE80211_RADIOTAP = x.ARPHRD_IEEE80211_RADIOTAP
const ARPHRD_IEEE802154 = x.ARPHRD_IEEE802154
const ARPHRD_IEEE802154_PHY = x.ARPHRD_IEEE802154_PHY
const ARPHRD_IEEE802_TR = x.ARPHRD_IEEE802_TR
const ARPHRD_INFINIBAND = x.ARPHRD_INFINIBAND
const ARPHRD_IPDDP = x.ARPHRD_IPDDP
const ARPHRD_IPGRE = x.ARPHRD_IPGRE
const ARPHRD_IRDA = x.ARPHRD_IRDA
const ARPHRD_LAPB = x.ARPHRD_LAPB
const ARPHRD_LOCALTLK = x.ARPHRD_LOCALTLK
const ARPHRD_LOOPBACK = x.ARPHRD_LOOPBACK
const ARPHRD_METRICOM = x.ARPHRD_METRICOM
const ARPHRD_NETROM = x.ARPHRD_NETROM
const ARPHRD_NONE = x.ARPHRD_NONE
const ARPHRD_PIMREG = x.ARPHRD_PIMREG
const ARPHRD_PPP = x.ARPHRD_PPP
const ARPHRD_PRONET = x.ARPHRD_PRONET
const ARPHRD_RAWHDLC = x.ARPHRD_RAWHDLC
const ARPHRD_ROSE = x.ARPHRD_ROSE
const ARPHRD_RSRVD = x.ARPHRD_RSRVD
const ARPHRD_SIT = x.ARPHRD_SIT
const ARPHRD_SKIP = x.ARPHRD_SKIP
const ARPHRD_SLIP = x.ARPHRD_SLIP
const ARPHRD_SLIP6 = x.ARPHRD_SLIP6
const ARPHRD_TUNNEL = x.ARPHRD_TUNNEL
const ARPHRD_TUNNEL6 = x.ARPHRD_TUNNEL6
const ARPHRD_VOID = x.ARPHRD_VOID
const ARPHRD_X25 = x.ARPHRD_X25

var Accept = x.Accept
var Accept4 = x.Accept4
var Access = x.Access
var Acct = x.Acct
var Adjtimex = x.Adjtimex
var AllThreadsSyscall = x.AllThreadsSyscall
var AllThreadsSyscall6 = x.AllThreadsSyscall6
var AttachLsf = x.AttachLsf

const B0 = x.B0
const B1000000 = x.B1000000
const B110 = x.B110
const B115200 = x.B115200
const B1152000 = x.B1152000
const B1200 = x.B1200
const B134 = x.B134
const B150 = x.B150
const B1500000 = x.B1500000
const B1800 = x.B1800
const B19200 = x.B19200
const B200 = x.B200
const B2000000 = x.B2000000
const B230400 = x.B230400
const B2400 = x.B2400
const B2500000 = x.B2500000
const B300 = x.B300
const B3000000 = x.B3000000
const B3500000 = x.B3500000
const B38400 = x.B38400
const B4000000 = x.B4000000
const B460800 = x.B460800
const B4800 = x.B4800
const B50 = x.B50
const B500000 = x.B500000
const B57600 = x.B57600
const B576000 = x.B576000
const B600 = x.B600
const B75 = x.B75
const B921600 = x.B921600
const B9600 = x.B9600
const BPF_A = x.BPF_A
const BPF_ABS = x.BPF_ABS
const BPF_ADD = x.BPF_ADD
const BPF_ALU = x.BPF_ALU
const BPF_AND = x.BPF_AND
const BPF_B = x.BPF_B
const BPF_DIV = x.BPF_DIV
const BPF_H = x.BPF_H
const BPF_IMM = x.BPF_IMM
const BPF_IND = x.BPF_IND
const BPF_JA = x.BPF_JA
const BPF_JEQ = x.BPF_JEQ
const BPF_JGE = x.BPF_JGE
const BPF_JGT = x.BPF_JGT
const BPF_JMP = x.BPF_JMP
const BPF_JSET = x.BPF_JSET
const BPF_K = x.BPF_K
const BPF_LD = x.BPF_LD
const BPF_LDX = x.BPF_LDX
const BPF_LEN = x.BPF_LEN
const BPF_LSH = x.BPF_LSH
const BPF_MAJOR_VERSION = x.BPF_MAJOR_VERSION
const BPF_MAXINSNS = x.BPF_MAXINSNS
const BPF_MEM = x.BPF_MEM
const BPF_MEMWORDS = x.BPF_MEMWORDS
const BPF_MINOR_VERSION = x.BPF_MINOR_VERSION
const BPF_MISC = x.BPF_MISC
const BPF_MSH = x.BPF_MSH
const BPF_MUL = x.BPF_MUL
const BPF_NEG = x.BPF_NEG
const BPF_OR = x.BPF_OR
const BPF_RET = x.BPF_RET
const BPF_RSH = x.BPF_RSH
const BPF_ST = x.BPF_ST
const BPF_STX = x.BPF_STX
const BPF_SUB = x.BPF_SUB
const BPF_TAX = x.BPF_TAX
const BPF_TXA = x.BPF_TXA
const BPF_W = x.BPF_W
const BPF_X = x.BPF_X
const BRKINT = x.BRKINT

var Bind = x.Bind
var BindToDevice = x.BindToDevice
var BytePtrFromString = x.BytePtrFromString
var ByteSliceFromString = x.ByteSliceFromString

const CLOCAL = x.CLOCAL
const CLONE_CHILD_CLEARTID = x.CLONE_CHILD_CLEARTID
const CLONE_CHILD_SETTID = x.CLONE_CHILD_SETTID
const CLONE_CLEAR_SIGHAND = x.CLONE_CLEAR_SIGHAND
const CLONE_DETACHED = x.CLONE_DETACHED
const CLONE_FILES = x.CLONE_FILES
const CLONE_FS = x.CLONE_FS
const CLONE_INTO_CGROUP = x.CLONE_INTO_CGROUP
const CLONE_IO = x.CLONE_IO
const CLONE_NEWCGROUP = x.CLONE_NEWCGROUP
const CLONE_NEWIPC = x.CLONE_NEWIPC
const CLONE_NEWNET = x.CLONE_NEWNET
const CLONE_NEWNS = x.CLONE_NEWNS
const CLONE_NEWPID = x.CLONE_NEWPID
const CLONE_NEWTIME = x.CLONE_NEWTIME
const CLONE_NEWUSER = x.CLONE_NEWUSER
const CLONE_NEWUTS = x.CLONE_NEWUTS
const CLONE_PARENT = x.CLONE_PARENT
const CLONE_PARENT_SETTID = x.CLONE_PARENT_SETTID
const CLONE_PIDFD = x.CLONE_PIDFD
const CLONE_PTRACE = x.CLONE_PTRACE
const CLONE_SETTLS = x.CLONE_SETTLS
const CLONE_SIGHAND = x.CLONE_SIGHAND
const CLONE_SYSVSEM = x.CLONE_SYSVSEM
const CLONE_THREAD = x.CLONE_THREAD
const CLONE_UNTRACED = x.CLONE_UNTRACED
const CLONE_VFORK = x.CLONE_VFORK
const CLONE_VM = x.CLONE_VM
const CREAD = x.CREAD
const CS5 = x.CS5
const CS6 = x.CS6
const CS7 = x.CS7
const CS8 = x.CS8
const CSIZE = x.CSIZE
const CSTOPB = x.CSTOPB

var Chdir = x.Chdir
var Chmod = x.Chmod
var Chown = x.Chown
var Chroot = x.Chroot
var Clearenv = x.Clearenv
var Close = x.Close
var CloseOnExec = x.CloseOnExec
var CmsgLen = x.CmsgLen
var CmsgSpace = x.CmsgSpace

type Cmsghdr = x.Cmsghdr
type Conn = x.Conn

var Connect = x.Connect
var Creat = x.Creat

type Credential = x.Credential

const DT_BLK = x.DT_BLK
const DT_CHR = x.DT_CHR
const DT_DIR = x.DT_DIR
const DT_FIFO = x.DT_FIFO
const DT_LNK = x.DT_LNK
const DT_REG = x.DT_REG
const DT_SOCK = x.DT_SOCK
const DT_UNKNOWN = x.DT_UNKNOWN
const DT_WHT = x.DT_WHT

var DetachLsf = x.DetachLsf

type Dirent = x.Dirent

var Dup = x.Dup
var Dup2 = x.Dup2
var Dup3 = x.Dup3

const E2BIG = x.E2BIG
const EACCES = x.EACCES
const EADDRINUSE = x.EADDRINUSE
const EADDRNOTAVAIL = x.EADDRNOTAVAIL
const EADV = x.EADV
const EAFNOSUPPORT = x.EAFNOSUPPORT
const EAGAIN = x.EAGAIN
const EALREADY = x.EALREADY
const EBADE = x.EBADE
const EBADF = x.EBADF
const EBADFD = x.EBADFD
const EBADMSG = x.EBADMSG
const EBADR = x.EBADR
const EBADRQC = x.EBADRQC
const EBADSLT = x.EBADSLT
const EBFONT = x.EBFONT
const EBUSY = x.EBUSY
const ECANCELED = x.ECANCELED
const ECHILD = x.ECHILD
const ECHO = x.ECHO
const ECHOCTL = x.ECHOCTL
const ECHOE = x.ECHOE
const ECHOK = x.ECHOK
const ECHOKE = x.ECHOKE
const ECHONL = x.ECHONL
const ECHOPRT = x.ECHOPRT
const ECHRNG = x.ECHRNG
const ECOMM = x.ECOMM
const ECONNABORTED = x.ECONNABORTED
const ECONNREFUSED = x.ECONNREFUSED
const ECONNRESET = x.ECONNRESET
const EDEADLK = x.EDEADLK
const EDEADLOCK = x.EDEADLOCK
const EDESTADDRREQ = x.EDESTADDRREQ
const EDOM = x.EDOM
const EDOTDOT = x.EDOTDOT
const EDQUOT = x.EDQUOT
const EEXIST = x.EEXIST
const EFAULT = x.EFAULT
const EFBIG = x.EFBIG
const EHOSTDOWN = x.EHOSTDOWN
const EHOSTUNREACH = x.EHOSTUNREACH
const EIDRM = x.EIDRM
const EILSEQ = x.EILSEQ
const EINPROGRESS = x.EINPROGRESS
const EINTR = x.EINTR
const EINVAL = x.EINVAL
const EIO = x.EIO
const EISCONN = x.EISCONN
const EISDIR = x.EISDIR
const EISNAM = x.EISNAM
const EKEYEXPIRED = x.EKEYEXPIRED
const EKEYREJECTED = x.EKEYREJECTED
const EKEYREVOKED = x.EKEYREVOKED
const EL2HLT = x.EL2HLT
const EL2NSYNC = x.EL2NSYNC
const EL3HLT = x.EL3HLT
const EL3RST = x.EL3RST
const ELIBACC = x.ELIBACC
const ELIBBAD = x.ELIBBAD
const ELIBEXEC = x.ELIBEXEC
const ELIBMAX = x.ELIBMAX
const ELIBSCN = x.ELIBSCN
const ELNRNG = x.ELNRNG
const ELOOP = x.ELOOP
const EMEDIUMTYPE = x.EMEDIUMTYPE
const EMFILE = x.EMFILE
const EMLINK = x.EMLINK
const EMSGSIZE = x.EMSGSIZE
const EMULTIHOP = x.EMULTIHOP
const ENAMETOOLONG = x.ENAMETOOLONG
const ENAVAIL = x.ENAVAIL
const ENETDOWN = x.ENETDOWN
const ENETRESET = x.ENETRESET
const ENETUNREACH = x.ENETUNREACH
const ENFILE = x.ENFILE
const ENOANO = x.ENOANO
const ENOBUFS = x.ENOBUFS
const ENOCSI = x.ENOCSI
const ENODATA = x.ENODATA
const ENODEV = x.ENODEV
const ENOENT = x.ENOENT
const ENOEXEC = x.ENOEXEC
const ENOKEY = x.ENOKEY
const ENOLCK = x.ENOLCK
const ENOLINK = x.ENOLINK
const ENOMEDIUM = x.ENOMEDIUM
const ENOMEM = x.ENOMEM
const ENOMSG = x.ENOMSG
const ENONET = x.ENONET
const ENOPKG = x.ENOPKG
const ENOPROTOOPT = x.ENOPROTOOPT
const ENOSPC = x.ENOSPC
const ENOSR = x.ENOSR
const ENOSTR = x.ENOSTR
const ENOSYS = x.ENOSYS
const ENOTBLK = x.ENOTBLK
const ENOTCONN = x.ENOTCONN
const ENOTDIR = x.ENOTDIR
const ENOTEMPTY = x.ENOTEMPTY
const ENOTNAM = x.ENOTNAM
const ENOTRECOVERABLE = x.ENOTRECOVERABLE
const ENOTSOCK = x.ENOTSOCK
const ENOTSUP = x.ENOTSUP
const ENOTTY = x.ENOTTY
const ENOTUNIQ = x.ENOTUNIQ
const ENXIO = x.ENXIO
const EOPNOTSUPP = x.EOPNOTSUPP
const EOVERFLOW = x.EOVERFLOW
const EOWNERDEAD = x.EOWNERDEAD
const EPERM = x.EPERM
const EPFNOSUPPORT = x.EPFNOSUPPORT
const EPIPE = x.EPIPE
const EPOLLERR = x.EPOLLERR
const EPOLLET = x.EPOLLET
const EPOLLHUP = x.EPOLLHUP
const EPOLLIN = x.EPOLLIN
const EPOLLMSG = x.EPOLLMSG
const EPOLLONESHOT = x.EPOLLONESHOT
const EPOLLOUT = x.EPOLLOUT
const EPOLLPRI = x.EPOLLPRI
const EPOLLRDBAND = x.EPOLLRDBAND
const EPOLLRDHUP = x.EPOLLRDHUP
const EPOLLRDNORM = x.EPOLLRDNORM
const EPOLLWRBAND = x.EPOLLWRBAND
const EPOLLWRNORM = x.EPOLLWRNORM
const EPOLL_CLOEXEC = x.EPOLL_CLOEXEC
const EPOLL_CTL_ADD = x.EPOLL_CTL_ADD
const EPOLL_CTL_DEL = x.EPOLL_CTL_DEL
const EPOLL_CTL_MOD = x.EPOLL_CTL_MOD
const EPOLL_NONBLOCK = x.EPOLL_NONBLOCK
const EPROTO = x.EPROTO
const EPROTONOSUPPORT = x.EPROTONOSUPPORT
const EPROTOTYPE = x.EPROTOTYPE
const ERANGE = x.ERANGE
const EREMCHG = x.EREMCHG
const EREMOTE = x.EREMOTE
const EREMOTEIO = x.EREMOTEIO
const ERESTART = x.ERESTART
const ERFKILL = x.ERFKILL
const EROFS = x.EROFS
const ESHUTDOWN = x.ESHUTDOWN
const ESOCKTNOSUPPORT = x.ESOCKTNOSUPPORT
const ESPIPE = x.ESPIPE
const ESRCH = x.ESRCH
const ESRMNT = x.ESRMNT
const ESTALE = x.ESTALE
const ESTRPIPE = x.ESTRPIPE
const ETH_P_1588 = x.ETH_P_1588
const ETH_P_8021Q = x.ETH_P_8021Q
const ETH_P_802_2 = x.ETH_P_802_2
const ETH_P_802_3 = x.ETH_P_802_3
const ETH_P_AARP = x.ETH_P_AARP
const ETH_P_ALL = x.ETH_P_ALL
const ETH_P_AOE = x.ETH_P_AOE
const ETH_P_ARCNET = x.ETH_P_ARCNET
const ETH_P_ARP = x.ETH_P_ARP
const ETH_P_ATALK = x.ETH_P_ATALK
const ETH_P_ATMFATE = x.ETH_P_ATMFATE
const ETH_P_ATMMPOA = x.ETH_P_ATMMPOA
const ETH_P_AX25 = x.ETH_P_AX25
const ETH_P_BPQ = x.ETH_P_BPQ
const ETH_P_CAIF = x.ETH_P_CAIF
const ETH_P_CAN = x.ETH_P_CAN
const ETH_P_CONTROL = x.ETH_P_CONTROL
const ETH_P_CUST = x.ETH_P_CUST
const ETH_P_DDCMP = x.ETH_P_DDCMP
const ETH_P_DEC = x.ETH_P_DEC
const ETH_P_DIAG = x.ETH_P_DIAG
const ETH_P_DNA_DL = x.ETH_P_DNA_DL
const ETH_P_DNA_RC = x.ETH_P_DNA_RC
const ETH_P_DNA_RT = x.ETH_P_DNA_RT
const ETH_P_DSA = x.ETH_P_DSA
const ETH_P_ECONET = x.ETH_P_ECONET
const ETH_P_EDSA = x.ETH_P_EDSA
const ETH_P_FCOE = x.ETH_P_FCOE
const ETH_P_FIP = x.ETH_P_FIP
const ETH_P_HDLC = x.ETH_P_HDLC
const ETH_P_IEEE802154 = x.ETH_P_IEEE802154
const ETH_P_IEEEPUP = x.ETH_P_IEEEPUP
const ETH_P_IEEEPUPAT = x.ETH_P_IEEEPUPAT
const ETH_P_IP = x.ETH_P_IP
const ETH_P_IPV6 = x.ETH_P_IPV6
const ETH_P_IPX = x.ETH_P_IPX
const ETH_P_IRDA = x.ETH_P_IRDA
const ETH_P_LAT = x.ETH_P_LAT
const ETH_P_LINK_CTL = x.ETH_P_LINK_CTL
const ETH_P_LOCALTALK = x.ETH_P_LOCALTALK
const ETH_P_LOOP = x.ETH_P_LOOP
const ETH_P_MOBITEX = x.ETH_P_MOBITEX
const ETH_P_MPLS_MC = x.ETH_P_MPLS_MC
const ETH_P_MPLS_UC = x.ETH_P_MPLS_UC
const ETH_P_PAE = x.ETH_P_PAE
const ETH_P_PAUSE = x.ETH_P_PAUSE
const ETH_P_PHONET = x.ETH_P_PHONET
const ETH_P_PPPTALK = x.ETH_P_PPPTALK
const ETH_P_PPP_DISC = x.ETH_P_PPP_DISC
const ETH_P_PPP_MP = x.ETH_P_PPP_MP
const ETH_P_PPP_SES = x.ETH_P_PPP_SES
const ETH_P_PUP = x.ETH_P_PUP
const ETH_P_PUPAT = x.ETH_P_PUPAT
const ETH_P_RARP = x.ETH_P_RARP
const ETH_P_SCA = x.ETH_P_SCA
const ETH_P_SLOW = x.ETH_P_SLOW
const ETH_P_SNAP = x.ETH_P_SNAP
const ETH_P_TEB = x.ETH_P_TEB
const ETH_P_TIPC = x.ETH_P_TIPC
const ETH_P_TRAILER = x.ETH_P_TRAILER
const ETH_P_TR_802_2 = x.ETH_P_TR_802_2
const ETH_P_WAN_PPP = x.ETH_P_WAN_PPP
const ETH_P_WCCP = x.ETH_P_WCCP
const ETH_P_X25 = x.ETH_P_X25
const ETIME = x.ETIME
const ETIMEDOUT = x.ETIMEDOUT
const ETOOMANYREFS = x.ETOOMANYREFS
const ETXTBSY = x.ETXTBSY
const EUCLEAN = x.EUCLEAN
const EUNATCH = x.EUNATCH
const EUSERS = x.EUSERS
const EWOULDBLOCK = x.EWOULDBLOCK
const EXDEV = x.EXDEV
const EXFULL = x.EXFULL

var Environ = x.Environ
var EpollCreate = x.EpollCreate
var EpollCreate1 = x.EpollCreate1
var EpollCtl = x.EpollCtl

type EpollEvent = x.EpollEvent

var EpollWait = x.EpollWait

type Errno = x.Errno

var Exec = x.Exec
var Exit = x.Exit

const FD_CLOEXEC = x.FD_CLOEXEC
const FD_SETSIZE = x.FD_SETSIZE
const FLUSHO = x.FLUSHO
const F_DUPFD = x.F_DUPFD
const F_DUPFD_CLOEXEC = x.F_DUPFD_CLOEXEC
const F_EXLCK = x.F_EXLCK
const F_GETFD = x.F_GETFD
const F_GETFL = x.F_GETFL
const F_GETLEASE = x.F_GETLEASE
const F_GETLK = x.F_GETLK
const F_GETLK64 = x.F_GETLK64
const F_GETOWN = x.F_GETOWN
const F_GETOWN_EX = x.F_GETOWN_EX
const F_GETPIPE_SZ = x.F_GETPIPE_SZ
const F_GETSIG = x.F_GETSIG
const F_LOCK = x.F_LOCK
const F_NOTIFY = x.F_NOTIFY
const F_OK = x.F_OK
const F_RDLCK = x.F_RDLCK
const F_SETFD = x.F_SETFD
const F_SETFL = x.F_SETFL
const F_SETLEASE = x.F_SETLEASE
const F_SETLK = x.F_SETLK
const F_SETLK64 = x.F_SETLK64
const F_SETLKW = x.F_SETLKW
const F_SETLKW64 = x.F_SETLKW64
const F_SETOWN = x.F_SETOWN
const F_SETOWN_EX = x.F_SETOWN_EX
const F_SETPIPE_SZ = x.F_SETPIPE_SZ
const F_SETSIG = x.F_SETSIG
const F_SHLCK = x.F_SHLCK
const F_TEST = x.F_TEST
const F_TLOCK = x.F_TLOCK
const F_ULOCK = x.F_ULOCK
const F_UNLCK = x.F_UNLCK
const F_WRLCK = x.F_WRLCK

var Faccessat = x.Faccessat
var Fallocate = x.Fallocate
var Fchdir = x.Fchdir
var Fchmod = x.Fchmod
var Fchmodat = x.Fchmodat
var Fchown = x.Fchown
var Fchownat = x.Fchownat
var FcntlFlock = x.FcntlFlock

type FdSet = x.FdSet

var Fdatasync = x.Fdatasync
var Flock = x.Flock

type Flock_t = x.Flock_t

var ForkExec = x.ForkExec

type Fsid = x.Fsid

var Fstat = x.Fstat
var Fstatfs = x.Fstatfs
var Fsync = x.Fsync
var Ftruncate = x.Ftruncate
var Futimes = x.Futimes
var Futimesat = x.Futimesat
var Getcwd = x.Getcwd
var Getdents = x.Getdents
var Getegid = x.Getegid
var Getenv = x.Getenv
var Geteuid = x.Geteuid
var Getgid = x.Getgid
var Getgroups = x.Getgroups
var Getpagesize = x.Getpagesize
var Getpeername = x.Getpeername
var Getpgid = x.Getpgid
var Getpgrp = x.Getpgrp
var Getpid = x.Getpid
var Getppid = x.Getppid
var Getpriority = x.Getpriority
var Getrlimit = x.Getrlimit
var Getrusage = x.Getrusage
var Getsockname = x.Getsockname
var GetsockoptICMPv6Filter = x.GetsockoptICMPv6Filter
var GetsockoptIPMreq = x.GetsockoptIPMreq
var GetsockoptIPMreqn = x.GetsockoptIPMreqn
var GetsockoptIPv6MTUInfo = x.GetsockoptIPv6MTUInfo
var GetsockoptIPv6Mreq = x.GetsockoptIPv6Mreq
var GetsockoptInet4Addr = x.GetsockoptInet4Addr
var GetsockoptInt = x.GetsockoptInt
var GetsockoptUcred = x.GetsockoptUcred
var Gettid = x.Gettid
var Gettimeofday = x.Gettimeofday
var Getuid = x.Getuid
var Getwd = x.Getwd
var Getxattr = x.Getxattr

const HUPCL = x.HUPCL
const ICANON = x.ICANON
const ICMPV6_FILTER = x.ICMPV6_FILTER

type ICMPv6Filter = x.ICMPv6Filter

const ICRNL = x.ICRNL
const IEXTEN = x.IEXTEN
const IFA_ADDRESS = x.IFA_ADDRESS
const IFA_ANYCAST = x.IFA_ANYCAST
const IFA_BROADCAST = x.IFA_BROADCAST
const IFA_CACHEINFO = x.IFA_CACHEINFO
const IFA_F_DADFAILED = x.IFA_F_DADFAILED
const IFA_F_DEPRECATED = x.IFA_F_DEPRECATED
const IFA_F_HOMEADDRESS = x.IFA_F_HOMEADDRESS
const IFA_F_NODAD = x.IFA_F_NODAD
const IFA_F_OPTIMISTIC = x.IFA_F_OPTIMISTIC
const IFA_F_PERMANENT = x.IFA_F_PERMANENT
const IFA_F_SECONDARY = x.IFA_F_SECONDARY
const IFA_F_TEMPORARY = x.IFA_F_TEMPORARY
const IFA_F_TENTATIVE = x.IFA_F_TENTATIVE
const IFA_LABEL = x.IFA_LABEL
const IFA_LOCAL = x.IFA_LOCAL
const IFA_MAX = x.IFA_MAX
const IFA_MULTICAST = x.IFA_MULTICAST
const IFA_UNSPEC = x.IFA_UNSPEC
const IFF_ALLMULTI = x.IFF_ALLMULTI
const IFF_AUTOMEDIA = x.IFF_AUTOMEDIA
const IFF_BROADCAST = x.IFF_BROADCAST
const IFF_DEBUG = x.IFF_DEBUG
const IFF_DYNAMIC = x.IFF_DYNAMIC
const IFF_LOOPBACK = x.IFF_LOOPBACK
const IFF_MASTER = x.IFF_MASTER
const IFF_MULTICAST = x.IFF_MULTICAST
const IFF_NOARP = x.IFF_NOARP
const IFF_NOTRAILERS = x.IFF_NOTRAILERS
const IFF_NO_PI = x.IFF_NO_PI
const IFF_ONE_QUEUE = x.IFF_ONE_QUEUE
const IFF_POINTOPOINT = x.IFF_POINTOPOINT
const IFF_PORTSEL = x.IFF_PORTSEL
const IFF_PROMISC = x.IFF_PROMISC
const IFF_RUNNING = x.IFF_RUNNING
const IFF_SLAVE = x.IFF_SLAVE
const IFF_TAP = x.IFF_TAP
const IFF_TUN = x.IFF_TUN
const IFF_TUN_EXCL = x.IFF_TUN_EXCL
const IFF_UP = x.IFF_UP
const IFF_VNET_HDR = x.IFF_VNET_HDR
const IFLA_ADDRESS = x.IFLA_ADDRESS
const IFLA_BROADCAST = x.IFLA_BROADCAST
const IFLA_COST = x.IFLA_COST
const IFLA_IFALIAS = x.IFLA_IFALIAS
const IFLA_IFNAME = x.IFLA_IFNAME
const IFLA_LINK = x.IFLA_LINK
const IFLA_LINKINFO = x.IFLA_LINKINFO
const IFLA_LINKMODE = x.IFLA_LINKMODE
const IFLA_MAP = x.IFLA_MAP
const IFLA_MASTER = x.IFLA_MASTER
const IFLA_MAX = x.IFLA_MAX
const IFLA_MTU = x.IFLA_MTU
const IFLA_NET_NS_PID = x.IFLA_NET_NS_PID
const IFLA_OPERSTATE = x.IFLA_OPERSTATE
const IFLA_PRIORITY = x.IFLA_PRIORITY
const IFLA_PROTINFO = x.IFLA_PROTINFO
const IFLA_QDISC = x.IFLA_QDISC
const IFLA_STATS = x.IFLA_STATS
const IFLA_TXQLEN = x.IFLA_TXQLEN
const IFLA_UNSPEC = x.IFLA_UNSPEC
const IFLA_WEIGHT = x.IFLA_WEIGHT
const IFLA_WIRELESS = x.IFLA_WIRELESS
const IFNAMSIZ = x.IFNAMSIZ
const IGNBRK = x.IGNBRK
const IGNCR = x.IGNCR
const IGNPAR = x.IGNPAR
const IMAXBEL = x.IMAXBEL
const INLCR = x.INLCR
const INPCK = x.INPCK
const IN_ACCESS = x.IN_ACCESS
const IN_ALL_EVENTS = x.IN_ALL_EVENTS
const IN_ATTRIB = x.IN_ATTRIB
const IN_CLASSA_HOST = x.IN_CLASSA_HOST
const IN_CLASSA_MAX = x.IN_CLASSA_MAX
const IN_CLASSA_NET = x.IN_CLASSA_NET
const IN_CLASSA_NSHIFT = x.IN_CLASSA_NSHIFT
const IN_CLASSB_HOST = x.IN_CLASSB_HOST
const IN_CLASSB_MAX = x.IN_CLASSB_MAX
const IN_CLASSB_NET = x.IN_CLASSB_NET
const IN_CLASSB_NSHIFT = x.IN_CLASSB_NSHIFT
const IN_CLASSC_HOST = x.IN_CLASSC_HOST
const IN_CLASSC_NET = x.IN_CLASSC_NET
const IN_CLASSC_NSHIFT = x.IN_CLASSC_NSHIFT
const IN_CLOEXEC = x.IN_CLOEXEC
const IN_CLOSE = x.IN_CLOSE
const IN_CLOSE_NOWRITE = x.IN_CLOSE_NOWRITE
const IN_CLOSE_WRITE = x.IN_CLOSE_WRITE
const IN_CREATE = x.IN_CREATE
const IN_DELETE = x.IN_DELETE
const IN_DELETE_SELF = x.IN_DELETE_SELF
const IN_DONT_FOLLOW = x.IN_DONT_FOLLOW
const IN_EXCL_UNLINK = x.IN_EXCL_UNLINK
const IN_IGNORED = x.IN_IGNORED
const IN_ISDIR = x.IN_ISDIR
const IN_LOOPBACKNET = x.IN_LOOPBACKNET
const IN_MASK_ADD = x.IN_MASK_ADD
const IN_MODIFY = x.IN_MODIFY
const IN_MOVE = x.IN_MOVE
const IN_MOVED_FROM = x.IN_MOVED_FROM
const IN_MOVED_TO = x.IN_MOVED_TO
const IN_MOVE_SELF = x.IN_MOVE_SELF
const IN_NONBLOCK = x.IN_NONBLOCK
const IN_ONESHOT = x.IN_ONESHOT
const IN_ONLYDIR = x.IN_ONLYDIR
const IN_OPEN = x.IN_OPEN
const IN_Q_OVERFLOW = x.IN_Q_OVERFLOW
const IN_UNMOUNT = x.IN_UNMOUNT

type IPMreq = x.IPMreq
type IPMreqn = x.IPMreqn

const IPPROTO_AH = x.IPPROTO_AH
const IPPROTO_COMP = x.IPPROTO_COMP
const IPPROTO_DCCP = x.IPPROTO_DCCP
const IPPROTO_DSTOPTS = x.IPPROTO_DSTOPTS
const IPPROTO_EGP = x.IPPROTO_EGP
const IPPROTO_ENCAP = x.IPPROTO_ENCAP
const IPPROTO_ESP = x.IPPROTO_ESP
const IPPROTO_FRAGMENT = x.IPPROTO_FRAGMENT
const IPPROTO_GRE = x.IPPROTO_GRE
const IPPROTO_HOPOPTS = x.IPPROTO_HOPOPTS
const IPPROTO_ICMP = x.IPPROTO_ICMP
const IPPROTO_ICMPV6 = x.IPPROTO_ICMPV6
const IPPROTO_IDP = x.IPPROTO_IDP
const IPPROTO_IGMP = x.IPPROTO_IGMP
const IPPROTO_IP = x.IPPROTO_IP
const IPPROTO_IPIP = x.IPPROTO_IPIP
const IPPROTO_IPV6 = x.IPPROTO_IPV6
const IPPROTO_MTP = x.IPPROTO_MTP
const IPPROTO_NONE = x.IPPROTO_NONE
const IPPROTO_PIM = x.IPPROTO_PIM
const IPPROTO_PUP = x.IPPROTO_PUP
const IPPROTO_RAW = x.IPPROTO_RAW
const IPPROTO_ROUTING = x.IPPROTO_ROUTING
const IPPROTO_RSVP = x.IPPROTO_RSVP
const IPPROTO_SCTP = x.IPPROTO_SCTP
const IPPROTO_TCP = x.IPPROTO_TCP
const IPPROTO_TP = x.IPPROTO_TP
const IPPROTO_UDP = x.IPPROTO_UDP
const IPPROTO_UDPLITE = x.IPPROTO_UDPLITE
const IPV6_2292DSTOPTS = x.IPV6_2292DSTOPTS
const IPV6_2292HOPLIMIT = x.IPV6_2292HOPLIMIT
const IPV6_2292HOPOPTS = x.IPV6_2292HOPOPTS
const IPV6_2292PKTINFO = x.IPV6_2292PKTINFO
const IPV6_2292PKTOPTIONS = x.IPV6_2292PKTOPTIONS
const IPV6_2292RTHDR = x.IPV6_2292RTHDR
const IPV6_ADDRFORM = x.IPV6_ADDRFORM
const IPV6_ADD_MEMBERSHIP = x.IPV6_ADD_MEMBERSHIP
const IPV6_AUTHHDR = x.IPV6_AUTHHDR
const IPV6_CHECKSUM = x.IPV6_CHECKSUM
const IPV6_DROP_MEMBERSHIP = x.IPV6_DROP_MEMBERSHIP
const IPV6_DSTOPTS = x.IPV6_DSTOPTS
const IPV6_HOPLIMIT = x.IPV6_HOPLIMIT
const IPV6_HOPOPTS = x.IPV6_HOPOPTS
const IPV6_IPSEC_POLICY = x.IPV6_IPSEC_POLICY
const IPV6_JOIN_ANYCAST = x.IPV6_JOIN_ANYCAST
const IPV6_JOIN_GROUP = x.IPV6_JOIN_GROUP
const IPV6_LEAVE_ANYCAST = x.IPV6_LEAVE_ANYCAST
const IPV6_LEAVE_GROUP = x.IPV6_LEAVE_GROUP
const IPV6_MTU = x.IPV6_MTU
const IPV6_MTU_DISCOVER = x.IPV6_MTU_DISCOVER
const IPV6_MULTICAST_HOPS = x.IPV6_MULTICAST_HOPS
const IPV6_MULTICAST_IF = x.IPV6_MULTICAST_IF
const IPV6_MULTICAST_LOOP = x.IPV6_MULTICAST_LOOP
const IPV6_NEXTHOP = x.IPV6_NEXTHOP
const IPV6_PKTINFO = x.IPV6_PKTINFO
const IPV6_PMTUDISC_DO = x.IPV6_PMTUDISC_DO
const IPV6_PMTUDISC_DONT = x.IPV6_PMTUDISC_DONT
const IPV6_PMTUDISC_PROBE = x.IPV6_PMTUDISC_PROBE
const IPV6_PMTUDISC_WANT = x.IPV6_PMTUDISC_WANT
const IPV6_RECVDSTOPTS = x.IPV6_RECVDSTOPTS
const IPV6_RECVERR = x.IPV6_RECVERR
const IPV6_RECVHOPLIMIT = x.IPV6_RECVHOPLIMIT
const IPV6_RECVHOPOPTS = x.IPV6_RECVHOPOPTS
const IPV6_RECVPKTINFO = x.IPV6_RECVPKTINFO
const IPV6_RECVRTHDR = x.IPV6_RECVRTHDR
const IPV6_RECVTCLASS = x.IPV6_RECVTCLASS
const IPV6_ROUTER_ALERT = x.IPV6_ROUTER_ALERT
const IPV6_RTHDR = x.IPV6_RTHDR
const IPV6_RTHDRDSTOPTS = x.IPV6_RTHDRDSTOPTS
const IPV6_RTHDR_LOOSE = x.IPV6_RTHDR_LOOSE
const IPV6_RTHDR_STRICT = x.IPV6_RTHDR_STRICT
const IPV6_RTHDR_TYPE_0 = x.IPV6_RTHDR_TYPE_0
const IPV6_RXDSTOPTS = x.IPV6_RXDSTOPTS
const IPV6_RXHOPOPTS = x.IPV6_RXHOPOPTS
const IPV6_TCLASS = x.IPV6_TCLASS
const IPV6_UNICAST_HOPS = x.IPV6_UNICAST_HOPS
const IPV6_V6ONLY = x.IPV6_V6ONLY
const IPV6_XFRM_POLICY = x.IPV6_XFRM_POLICY
const IP_ADD_MEMBERSHIP = x.IP_ADD_MEMBERSHIP
const IP_ADD_SOURCE_MEMBERSHIP = x.IP_ADD_SOURCE_MEMBERSHIP
const IP_BLOCK_SOURCE = x.IP_BLOCK_SOURCE
const IP_DEFAULT_MULTICAST_LOOP = x.IP_DEFAULT_MULTICAST_LOOP
const IP_DEFAULT_MULTICAST_TTL = x.IP_DEFAULT_MULTICAST_TTL
const IP_DF = x.IP_DF
const IP_DROP_MEMBERSHIP = x.IP_DROP_MEMBERSHIP
const IP_DROP_SOURCE_MEMBERSHIP = x.IP_DROP_SOURCE_MEMBERSHIP
const IP_FREEBIND = x.IP_FREEBIND
const IP_HDRINCL = x.IP_HDRINCL
const IP_IPSEC_POLICY = x.IP_IPSEC_POLICY
const IP_MAXPACKET = x.IP_MAXPACKET
const IP_MAX_MEMBERSHIPS = x.IP_MAX_MEMBERSHIPS
const IP_MF = x.IP_MF
const IP_MINTTL = x.IP_MINTTL
const IP_MSFILTER = x.IP_MSFILTER
const IP_MSS = x.IP_MSS
const IP_MTU = x.IP_MTU
const IP_MTU_DISCOVER = x.IP_MTU_DISCOVER
const IP_MULTICAST_IF = x.IP_MULTICAST_IF
const IP_MULTICAST_LOOP = x.IP_MULTICAST_LOOP
const IP_MULTICAST_TTL = x.IP_MULTICAST_TTL
const IP_OFFMASK = x.IP_OFFMASK
const IP_OPTIONS = x.IP_OPTIONS
const IP_ORIGDSTADDR = x.IP_ORIGDSTADDR
const IP_PASSSEC = x.IP_PASSSEC
const IP_PKTINFO = x.IP_PKTINFO
const IP_PKTOPTIONS = x.IP_PKTOPTIONS
const IP_PMTUDISC = x.IP_PMTUDISC
const IP_PMTUDISC_DO = x.IP_PMTUDISC_DO
const IP_PMTUDISC_DONT = x.IP_PMTUDISC_DONT
const IP_PMTUDISC_PROBE = x.IP_PMTUDISC_PROBE
const IP_PMTUDISC_WANT = x.IP_PMTUDISC_WANT
const IP_RECVERR = x.IP_RECVERR
const IP_RECVOPTS = x.IP_RECVOPTS
const IP_RECVORIGDSTADDR = x.IP_RECVORIGDSTADDR
const IP_RECVRETOPTS = x.IP_RECVRETOPTS
const IP_RECVTOS = x.IP_RECVTOS
const IP_RECVTTL = x.IP_RECVTTL
const IP_RETOPTS = x.IP_RETOPTS
const IP_RF = x.IP_RF
const IP_ROUTER_ALERT = x.IP_ROUTER_ALERT
const IP_TOS = x.IP_TOS
const IP_TRANSPARENT = x.IP_TRANSPARENT
const IP_TTL = x.IP_TTL
const IP_UNBLOCK_SOURCE = x.IP_UNBLOCK_SOURCE
const IP_XFRM_POLICY = x.IP_XFRM_POLICY

type IPv6MTUInfo = x.IPv6MTUInfo
type IPv6Mreq = x.IPv6Mreq

const ISIG = x.ISIG
const ISTRIP = x.ISTRIP
const IUCLC = x.IUCLC
const IUTF8 = x.IUTF8
const IXANY = x.IXANY
const IXOFF = x.IXOFF
const IXON = x.IXON

type IfAddrmsg = x.IfAddrmsg
type IfInfomsg = x.IfInfomsg

const ImplementsGetwd = x.ImplementsGetwd

type Inet4Pktinfo = x.Inet4Pktinfo
type Inet6Pktinfo = x.Inet6Pktinfo

var InotifyAddWatch = x.InotifyAddWatch

type InotifyEvent = x.InotifyEvent

var InotifyInit = x.InotifyInit
var InotifyInit1 = x.InotifyInit1
var InotifyRmWatch = x.InotifyRmWatch
var Ioperm = x.Ioperm
var Iopl = x.Iopl

type Iovec = x.Iovec

var Kill = x.Kill
var Klogctl = x.Klogctl

const LINUX_REBOOT_CMD_CAD_OFF = x.LINUX_REBOOT_CMD_CAD_OFF
const LINUX_REBOOT_CMD_CAD_ON = x.LINUX_REBOOT_CMD_CAD_ON
const LINUX_REBOOT_CMD_HALT = x.LINUX_REBOOT_CMD_HALT
const LINUX_REBOOT_CMD_KEXEC = x.LINUX_REBOOT_CMD_KEXEC
const LINUX_REBOOT_CMD_POWER_OFF = x.LINUX_REBOOT_CMD_POWER_OFF
const LINUX_REBOOT_CMD_RESTART = x.LINUX_REBOOT_CMD_RESTART
const LINUX_REBOOT_CMD_RESTART2 = x.LINUX_REBOOT_CMD_RESTART2
const LINUX_REBOOT_CMD_SW_SUSPEND = x.LINUX_REBOOT_CMD_SW_SUSPEND
const LINUX_REBOOT_MAGIC1 = x.LINUX_REBOOT_MAGIC1
const LINUX_REBOOT_MAGIC2 = x.LINUX_REBOOT_MAGIC2
const LOCK_EX = x.LOCK_EX
const LOCK_NB = x.LOCK_NB
const LOCK_SH = x.LOCK_SH
const LOCK_UN = x.LOCK_UN

var Lchown = x.Lchown

type Linger = x.Linger

var Link = x.Link
var Listen = x.Listen
var Listxattr = x.Listxattr
var LsfJump = x.LsfJump
var LsfSocket = x.LsfSocket
var LsfStmt = x.LsfStmt
var Lstat = x.Lstat

const MADV_DOFORK = x.MADV_DOFORK
const MADV_DONTFORK = x.MADV_DONTFORK
const MADV_DONTNEED = x.MADV_DONTNEED
const MADV_HUGEPAGE = x.MADV_HUGEPAGE
const MADV_HWPOISON = x.MADV_HWPOISON
const MADV_MERGEABLE = x.MADV_MERGEABLE
const MADV_NOHUGEPAGE = x.MADV_NOHUGEPAGE
const MADV_NORMAL = x.MADV_NORMAL
const MADV_RANDOM = x.MADV_RANDOM
const MADV_REMOVE = x.MADV_REMOVE
const MADV_SEQUENTIAL = x.MADV_SEQUENTIAL
const MADV_UNMERGEABLE = x.MADV_UNMERGEABLE
const MADV_WILLNEED = x.MADV_WILLNEED
const MAP_32BIT = x.MAP_32BIT
const MAP_ANON = x.MAP_ANON
const MAP_ANONYMOUS = x.MAP_ANONYMOUS
const MAP_DENYWRITE = x.MAP_DENYWRITE
const MAP_EXECUTABLE = x.MAP_EXECUTABLE
const MAP_FILE = x.MAP_FILE
const MAP_FIXED = x.MAP_FIXED
const MAP_GROWSDOWN = x.MAP_GROWSDOWN
const MAP_HUGETLB = x.MAP_HUGETLB
const MAP_LOCKED = x.MAP_LOCKED
const MAP_NONBLOCK = x.MAP_NONBLOCK
const MAP_NORESERVE = x.MAP_NORESERVE
const MAP_POPULATE = x.MAP_POPULATE
const MAP_PRIVATE = x.MAP_PRIVATE
const MAP_SHARED = x.MAP_SHARED
const MAP_STACK = x.MAP_STACK
const MAP_TYPE = x.MAP_TYPE
const MCL_CURRENT = x.MCL_CURRENT
const MCL_FUTURE = x.MCL_FUTURE
const MNT_DETACH = x.MNT_DETACH
const MNT_EXPIRE = x.MNT_EXPIRE
const MNT_FORCE = x.MNT_FORCE
const MSG_CMSG_CLOEXEC = x.MSG_CMSG_CLOEXEC
const MSG_CONFIRM = x.MSG_CONFIRM
const MSG_CTRUNC = x.MSG_CTRUNC
const MSG_DONTROUTE = x.MSG_DONTROUTE
const MSG_DONTWAIT = x.MSG_DONTWAIT
const MSG_EOR = x.MSG_EOR
const MSG_ERRQUEUE = x.MSG_ERRQUEUE
const MSG_FASTOPEN = x.MSG_FASTOPEN
const MSG_FIN = x.MSG_FIN
const MSG_MORE = x.MSG_MORE
const MSG_NOSIGNAL = x.MSG_NOSIGNAL
const MSG_OOB = x.MSG_OOB
const MSG_PEEK = x.MSG_PEEK
const MSG_PROXY = x.MSG_PROXY
const MSG_RST = x.MSG_RST
const MSG_SYN = x.MSG_SYN
const MSG_TRUNC = x.MSG_TRUNC
const MSG_TRYHARD = x.MSG_TRYHARD
const MSG_WAITALL = x.MSG_WAITALL
const MSG_WAITFORONE = x.MSG_WAITFORONE
const MS_ACTIVE = x.MS_ACTIVE
const MS_ASYNC = x.MS_ASYNC
const MS_BIND = x.MS_BIND
const MS_DIRSYNC = x.MS_DIRSYNC
const MS_INVALIDATE = x.MS_INVALIDATE
const MS_I_VERSION = x.MS_I_VERSION
const MS_KERNMOUNT = x.MS_KERNMOUNT
const MS_MANDLOCK = x.MS_MANDLOCK
const MS_MGC_MSK = x.MS_MGC_MSK
const MS_MGC_VAL = x.MS_MGC_VAL
const MS_MOVE = x.MS_MOVE
const MS_NOATIME = x.MS_NOATIME
const MS_NODEV = x.MS_NODEV
const MS_NODIRATIME = x.MS_NODIRATIME
const MS_NOEXEC = x.MS_NOEXEC
const MS_NOSUID = x.MS_NOSUID
const MS_NOUSER = x.MS_NOUSER
const MS_POSIXACL = x.MS_POSIXACL
const MS_PRIVATE = x.MS_PRIVATE
const MS_RDONLY = x.MS_RDONLY
const MS_REC = x.MS_REC
const MS_RELATIME = x.MS_RELATIME
const MS_REMOUNT = x.MS_REMOUNT
const MS_RMT_MASK = x.MS_RMT_MASK
const MS_SHARED = x.MS_SHARED
const MS_SILENT = x.MS_SILENT
const MS_SLAVE = x.MS_SLAVE
const MS_STRICTATIME = x.MS_STRICTATIME
const MS_SYNC = x.MS_SYNC
const MS_SYNCHRONOUS = x.MS_SYNCHRONOUS
const MS_UNBINDABLE = x.MS_UNBINDABLE

var Madvise = x.Madvise
var Mkdir = x.Mkdir
var Mkdirat = x.Mkdirat
var Mkfifo = x.Mkfifo
var Mknod = x.Mknod
var Mknodat = x.Mknodat
var Mlock = x.Mlock
var Mlockall = x.Mlockall
var Mmap = x.Mmap
var Mount = x.Mount
var Mprotect = x.Mprotect

type Msghdr = x.Msghdr

var Munlock = x.Munlock
var Munlockall = x.Munlockall
var Munmap = x.Munmap

const NAME_MAX = x.NAME_MAX
const NETLINK_ADD_MEMBERSHIP = x.NETLINK_ADD_MEMBERSHIP
const NETLINK_AUDIT = x.NETLINK_AUDIT
const NETLINK_BROADCAST_ERROR = x.NETLINK_BROADCAST_ERROR
const NETLINK_CONNECTOR = x.NETLINK_CONNECTOR
const NETLINK_DNRTMSG = x.NETLINK_DNRTMSG
const NETLINK_DROP_MEMBERSHIP = x.NETLINK_DROP_MEMBERSHIP
const NETLINK_ECRYPTFS = x.NETLINK_ECRYPTFS
const NETLINK_FIB_LOOKUP = x.NETLINK_FIB_LOOKUP
const NETLINK_FIREWALL = x.NETLINK_FIREWALL
const NETLINK_GENERIC = x.NETLINK_GENERIC
const NETLINK_INET_DIAG = x.NETLINK_INET_DIAG
const NETLINK_IP6_FW = x.NETLINK_IP6_FW
const NETLINK_ISCSI = x.NETLINK_ISCSI
const NETLINK_KOBJECT_UEVENT = x.NETLINK_KOBJECT_UEVENT
const NETLINK_NETFILTER = x.NETLINK_NETFILTER
const NETLINK_NFLOG = x.NETLINK_NFLOG
const NETLINK_NO_ENOBUFS = x.NETLINK_NO_ENOBUFS
const NETLINK_PKTINFO = x.NETLINK_PKTINFO
const NETLINK_ROUTE = x.NETLINK_ROUTE
const NETLINK_SCSITRANSPORT = x.NETLINK_SCSITRANSPORT
const NETLINK_SELINUX = x.NETLINK_SELINUX
const NETLINK_UNUSED = x.NETLINK_UNUSED
const NETLINK_USERSOCK = x.NETLINK_USERSOCK
const NETLINK_XFRM = x.NETLINK_XFRM
const NLA_ALIGNTO = x.NLA_ALIGNTO
const NLA_F_NESTED = x.NLA_F_NESTED
const NLA_F_NET_BYTEORDER = x.NLA_F_NET_BYTEORDER
const NLA_HDRLEN = x.NLA_HDRLEN
const NLMSG_ALIGNTO = x.NLMSG_ALIGNTO
const NLMSG_DONE = x.NLMSG_DONE
const NLMSG_ERROR = x.NLMSG_ERROR
const NLMSG_HDRLEN = x.NLMSG_HDRLEN
const NLMSG_MIN_TYPE = x.NLMSG_MIN_TYPE
const NLMSG_NOOP = x.NLMSG_NOOP
const NLMSG_OVERRUN = x.NLMSG_OVERRUN
const NLM_F_ACK = x.NLM_F_ACK
const NLM_F_APPEND = x.NLM_F_APPEND
const NLM_F_ATOMIC = x.NLM_F_ATOMIC
const NLM_F_CREATE = x.NLM_F_CREATE
const NLM_F_DUMP = x.NLM_F_DUMP
const NLM_F_ECHO = x.NLM_F_ECHO
const NLM_F_EXCL = x.NLM_F_EXCL
const NLM_F_MATCH = x.NLM_F_MATCH
const NLM_F_MULTI = x.NLM_F_MULTI
const NLM_F_REPLACE = x.NLM_F_REPLACE
const NLM_F_REQUEST = x.NLM_F_REQUEST
const NLM_F_ROOT = x.NLM_F_ROOT
const NOFLSH = x.NOFLSH

var Nanosleep = x.Nanosleep

type NetlinkMessage = x.NetlinkMessage

var NetlinkRIB = x.NetlinkRIB

type NetlinkRouteAttr = x.NetlinkRouteAttr
type NetlinkRouteRequest = x.NetlinkRouteRequest
type NlAttr = x.NlAttr
type NlMsgerr = x.NlMsgerr
type NlMsghdr = x.NlMsghdr

var NsecToTimespec = x.NsecToTimespec
var NsecToTimeval = x.NsecToTimeval

const OCRNL = x.OCRNL
const OFDEL = x.OFDEL
const OFILL = x.OFILL
const OLCUC = x.OLCUC
const ONLCR = x.ONLCR
const ONLRET = x.ONLRET
const ONOCR = x.ONOCR
const OPOST = x.OPOST
const O_ACCMODE = x.O_ACCMODE
const O_APPEND = x.O_APPEND
const O_ASYNC = x.O_ASYNC
const O_CLOEXEC = x.O_CLOEXEC
const O_CREAT = x.O_CREAT
const O_DIRECT = x.O_DIRECT
const O_DIRECTORY = x.O_DIRECTORY
const O_DSYNC = x.O_DSYNC
const O_EXCL = x.O_EXCL
const O_FSYNC = x.O_FSYNC
const O_LARGEFILE = x.O_LARGEFILE
const O_NDELAY = x.O_NDELAY
const O_NOATIME = x.O_NOATIME
const O_NOCTTY = x.O_NOCTTY
const O_NOFOLLOW = x.O_NOFOLLOW
const O_NONBLOCK = x.O_NONBLOCK
const O_RDONLY = x.O_RDONLY
const O_RDWR = x.O_RDWR
const O_RSYNC = x.O_RSYNC
const O_SYNC = x.O_SYNC
const O_TRUNC = x.O_TRUNC
const O_WRONLY = x.O_WRONLY

var Open = x.Open
var Openat = x.Openat

const PACKET_ADD_MEMBERSHIP = x.PACKET_ADD_MEMBERSHIP
const PACKET_BROADCAST = x.PACKET_BROADCAST
const PACKET_DROP_MEMBERSHIP = x.PACKET_DROP_MEMBERSHIP
const PACKET_FASTROUTE = x.PACKET_FASTROUTE
const PACKET_HOST = x.PACKET_HOST
const PACKET_LOOPBACK = x.PACKET_LOOPBACK
const PACKET_MR_ALLMULTI = x.PACKET_MR_ALLMULTI
const PACKET_MR_MULTICAST = x.PACKET_MR_MULTICAST
const PACKET_MR_PROMISC = x.PACKET_MR_PROMISC
const PACKET_MULTICAST = x.PACKET_MULTICAST
const PACKET_OTHERHOST = x.PACKET_OTHERHOST
const PACKET_OUTGOING = x.PACKET_OUTGOING
const PACKET_RECV_OUTPUT = x.PACKET_RECV_OUTPUT
const PACKET_RX_RING = x.PACKET_RX_RING
const PACKET_STATISTICS = x.PACKET_STATISTICS
const PARENB = x.PARENB
const PARMRK = x.PARMRK
const PARODD = x.PARODD
const PENDIN = x.PENDIN
const PRIO_PGRP = x.PRIO_PGRP
const PRIO_PROCESS = x.PRIO_PROCESS
const PRIO_USER = x.PRIO_USER
const PROT_EXEC = x.PROT_EXEC
const PROT_GROWSDOWN = x.PROT_GROWSDOWN
const PROT_GROWSUP = x.PROT_GROWSUP
const PROT_NONE = x.PROT_NONE
const PROT_READ = x.PROT_READ
const PROT_WRITE = x.PROT_WRITE
const PR_CAPBSET_DROP = x.PR_CAPBSET_DROP
const PR_CAPBSET_READ = x.PR_CAPBSET_READ
const PR_ENDIAN_BIG = x.PR_ENDIAN_BIG
const PR_ENDIAN_LITTLE = x.PR_ENDIAN_LITTLE
const PR_ENDIAN_PPC_LITTLE = x.PR_ENDIAN_PPC_LITTLE
const PR_FPEMU_NOPRINT = x.PR_FPEMU_NOPRINT
const PR_FPEMU_SIGFPE = x.PR_FPEMU_SIGFPE
const PR_FP_EXC_ASYNC = x.PR_FP_EXC_ASYNC
const PR_FP_EXC_DISABLED = x.PR_FP_EXC_DISABLED
const PR_FP_EXC_DIV = x.PR_FP_EXC_DIV
const PR_FP_EXC_INV = x.PR_FP_EXC_INV
const PR_FP_EXC_NONRECOV = x.PR_FP_EXC_NONRECOV
const PR_FP_EXC_OVF = x.PR_FP_EXC_OVF
const PR_FP_EXC_PRECISE = x.PR_FP_EXC_PRECISE
const PR_FP_EXC_RES = x.PR_FP_EXC_RES
const PR_FP_EXC_SW_ENABLE = x.PR_FP_EXC_SW_ENABLE
const PR_FP_EXC_UND = x.PR_FP_EXC_UND
const PR_GET_DUMPABLE = x.PR_GET_DUMPABLE
const PR_GET_ENDIAN = x.PR_GET_ENDIAN
const PR_GET_FPEMU = x.PR_GET_FPEMU
const PR_GET_FPEXC = x.PR_GET_FPEXC
const PR_GET_KEEPCAPS = x.PR_GET_KEEPCAPS
const PR_GET_NAME = x.PR_GET_NAME
const PR_GET_PDEATHSIG = x.PR_GET_PDEATHSIG
const PR_GET_SECCOMP = x.PR_GET_SECCOMP
const PR_GET_SECUREBITS = x.PR_GET_SECUREBITS
const PR_GET_TIMERSLACK = x.PR_GET_TIMERSLACK
const PR_GET_TIMING = x.PR_GET_TIMING
const PR_GET_TSC = x.PR_GET_TSC
const PR_GET_UNALIGN = x.PR_GET_UNALIGN
const PR_MCE_KILL = x.PR_MCE_KILL
const PR_MCE_KILL_CLEAR = x.PR_MCE_KILL_CLEAR
const PR_MCE_KILL_DEFAULT = x.PR_MCE_KILL_DEFAULT
const PR_MCE_KILL_EARLY = x.PR_MCE_KILL_EARLY
const PR_MCE_KILL_GET = x.PR_MCE_KILL_GET
const PR_MCE_KILL_LATE = x.PR_MCE_KILL_LATE
const PR_MCE_KILL_SET = x.PR_MCE_KILL_SET
const PR_SET_DUMPABLE = x.PR_SET_DUMPABLE
const PR_SET_ENDIAN = x.PR_SET_ENDIAN
const PR_SET_FPEMU = x.PR_SET_FPEMU
const PR_SET_FPEXC = x.PR_SET_FPEXC
const PR_SET_KEEPCAPS = x.PR_SET_KEEPCAPS
const PR_SET_NAME = x.PR_SET_NAME
const PR_SET_PDEATHSIG = x.PR_SET_PDEATHSIG
const PR_SET_PTRACER = x.PR_SET_PTRACER
const PR_SET_SECCOMP = x.PR_SET_SECCOMP
const PR_SET_SECUREBITS = x.PR_SET_SECUREBITS
const PR_SET_TIMERSLACK = x.PR_SET_TIMERSLACK
const PR_SET_TIMING = x.PR_SET_TIMING
const PR_SET_TSC = x.PR_SET_TSC
const PR_SET_UNALIGN = x.PR_SET_UNALIGN
const PR_TASK_PERF_EVENTS_DISABLE = x.PR_TASK_PERF_EVENTS_DISABLE
const PR_TASK_PERF_EVENTS_ENABLE = x.PR_TASK_PERF_EVENTS_ENABLE
const PR_TIMING_STATISTICAL = x.PR_TIMING_STATISTICAL
const PR_TIMING_TIMESTAMP = x.PR_TIMING_TIMESTAMP
const PR_TSC_ENABLE = x.PR_TSC_ENABLE
const PR_TSC_SIGSEGV = x.PR_TSC_SIGSEGV
const PR_UNALIGN_NOPRINT = x.PR_UNALIGN_NOPRINT
const PR_UNALIGN_SIGBUS = x.PR_UNALIGN_SIGBUS
const PTRACE_ARCH_PRCTL = x.PTRACE_ARCH_PRCTL
const PTRACE_ATTACH = x.PTRACE_ATTACH
const PTRACE_CONT = x.PTRACE_CONT
const PTRACE_DETACH = x.PTRACE_DETACH
const PTRACE_EVENT_CLONE = x.PTRACE_EVENT_CLONE
const PTRACE_EVENT_EXEC = x.PTRACE_EVENT_EXEC
const PTRACE_EVENT_EXIT = x.PTRACE_EVENT_EXIT
const PTRACE_EVENT_FORK = x.PTRACE_EVENT_FORK
const PTRACE_EVENT_VFORK = x.PTRACE_EVENT_VFORK
const PTRACE_EVENT_VFORK_DONE = x.PTRACE_EVENT_VFORK_DONE
const PTRACE_GETEVENTMSG = x.PTRACE_GETEVENTMSG
const PTRACE_GETFPREGS = x.PTRACE_GETFPREGS
const PTRACE_GETFPXREGS = x.PTRACE_GETFPXREGS
const PTRACE_GETREGS = x.PTRACE_GETREGS
const PTRACE_GETREGSET = x.PTRACE_GETREGSET
const PTRACE_GETSIGINFO = x.PTRACE_GETSIGINFO
const PTRACE_GET_THREAD_AREA = x.PTRACE_GET_THREAD_AREA
const PTRACE_KILL = x.PTRACE_KILL
const PTRACE_OLDSETOPTIONS = x.PTRACE_OLDSETOPTIONS
const PTRACE_O_MASK = x.PTRACE_O_MASK
const PTRACE_O_TRACECLONE = x.PTRACE_O_TRACECLONE
const PTRACE_O_TRACEEXEC = x.PTRACE_O_TRACEEXEC
const PTRACE_O_TRACEEXIT = x.PTRACE_O_TRACEEXIT
const PTRACE_O_TRACEFORK = x.PTRACE_O_TRACEFORK
const PTRACE_O_TRACESYSGOOD = x.PTRACE_O_TRACESYSGOOD
const PTRACE_O_TRACEVFORK = x.PTRACE_O_TRACEVFORK
const PTRACE_O_TRACEVFORKDONE = x.PTRACE_O_TRACEVFORKDONE
const PTRACE_PEEKDATA = x.PTRACE_PEEKDATA
const PTRACE_PEEKTEXT = x.PTRACE_PEEKTEXT
const PTRACE_PEEKUSR = x.PTRACE_PEEKUSR
const PTRACE_POKEDATA = x.PTRACE_POKEDATA
const PTRACE_POKETEXT = x.PTRACE_POKETEXT
const PTRACE_POKEUSR = x.PTRACE_POKEUSR
const PTRACE_SETFPREGS = x.PTRACE_SETFPREGS
const PTRACE_SETFPXREGS = x.PTRACE_SETFPXREGS
const PTRACE_SETOPTIONS = x.PTRACE_SETOPTIONS
const PTRACE_SETREGS = x.PTRACE_SETREGS
const PTRACE_SETREGSET = x.PTRACE_SETREGSET
const PTRACE_SETSIGINFO = x.PTRACE_SETSIGINFO
const PTRACE_SET_THREAD_AREA = x.PTRACE_SET_THREAD_AREA
const PTRACE_SINGLEBLOCK = x.PTRACE_SINGLEBLOCK
const PTRACE_SINGLESTEP = x.PTRACE_SINGLESTEP
const PTRACE_SYSCALL = x.PTRACE_SYSCALL
const PTRACE_SYSEMU = x.PTRACE_SYSEMU
const PTRACE_SYSEMU_SINGLESTEP = x.PTRACE_SYSEMU_SINGLESTEP
const PTRACE_TRACEME = x.PTRACE_TRACEME

var ParseDirent = x.ParseDirent
var ParseNetlinkMessage = x.ParseNetlinkMessage
var ParseNetlinkRouteAttr = x.ParseNetlinkRouteAttr
var ParseSocketControlMessage = x.ParseSocketControlMessage
var ParseUnixCredentials = x.ParseUnixCredentials
var ParseUnixRights = x.ParseUnixRights

const PathMax = x.PathMax

var Pause = x.Pause
var Pipe = x.Pipe
var Pipe2 = x.Pipe2
var PivotRoot = x.PivotRoot
var Pread = x.Pread

type ProcAttr = x.ProcAttr

var PtraceAttach = x.PtraceAttach
var PtraceCont = x.PtraceCont
var PtraceDetach = x.PtraceDetach
var PtraceGetEventMsg = x.PtraceGetEventMsg
var PtraceGetRegs = x.PtraceGetRegs
var PtracePeekData = x.PtracePeekData
var PtracePeekText = x.PtracePeekText
var PtracePokeData = x.PtracePokeData
var PtracePokeText = x.PtracePokeText

type PtraceRegs = x.PtraceRegs

var PtraceSetOptions = x.PtraceSetOptions
var PtraceSetRegs = x.PtraceSetRegs
var PtraceSingleStep = x.PtraceSingleStep
var PtraceSyscall = x.PtraceSyscall
var Pwrite = x.Pwrite

const RLIMIT_AS = x.RLIMIT_AS
const RLIMIT_CORE = x.RLIMIT_CORE
const RLIMIT_CPU = x.RLIMIT_CPU
const RLIMIT_DATA = x.RLIMIT_DATA
const RLIMIT_FSIZE = x.RLIMIT_FSIZE
const RLIMIT_NOFILE = x.RLIMIT_NOFILE
const RLIMIT_STACK = x.RLIMIT_STACK
const RLIM_INFINITY = x.RLIM_INFINITY
const RTAX_ADVMSS = x.RTAX_ADVMSS
const RTAX_CWND = x.RTAX_CWND
const RTAX_FEATURES = x.RTAX_FEATURES
const RTAX_FEATURE_ALLFRAG = x.RTAX_FEATURE_ALLFRAG
const RTAX_FEATURE_ECN = x.RTAX_FEATURE_ECN
const RTAX_FEATURE_SACK = x.RTAX_FEATURE_SACK
const RTAX_FEATURE_TIMESTAMP = x.RTAX_FEATURE_TIMESTAMP
const RTAX_HOPLIMIT = x.RTAX_HOPLIMIT
const RTAX_INITCWND = x.RTAX_INITCWND
const RTAX_INITRWND = x.RTAX_INITRWND
const RTAX_LOCK = x.RTAX_LOCK
const RTAX_MAX = x.RTAX_MAX
const RTAX_MTU = x.RTAX_MTU
const RTAX_REORDERING = x.RTAX_REORDERING
const RTAX_RTO_MIN = x.RTAX_RTO_MIN
const RTAX_RTT = x.RTAX_RTT
const RTAX_RTTVAR = x.RTAX_RTTVAR
const RTAX_SSTHRESH = x.RTAX_SSTHRESH
const RTAX_UNSPEC = x.RTAX_UNSPEC
const RTAX_WINDOW = x.RTAX_WINDOW
const RTA_ALIGNTO = x.RTA_ALIGNTO
const RTA_CACHEINFO = x.RTA_CACHEINFO
const RTA_DST = x.RTA_DST
const RTA_FLOW = x.RTA_FLOW
const RTA_GATEWAY = x.RTA_GATEWAY
const RTA_IIF = x.RTA_IIF
const RTA_MAX = x.RTA_MAX
const RTA_METRICS = x.RTA_METRICS
const RTA_MULTIPATH = x.RTA_MULTIPATH
const RTA_OIF = x.RTA_OIF
const RTA_PREFSRC = x.RTA_PREFSRC
const RTA_PRIORITY = x.RTA_PRIORITY
const RTA_SRC = x.RTA_SRC
const RTA_TABLE = x.RTA_TABLE
const RTA_UNSPEC = x.RTA_UNSPEC
const RTCF_DIRECTSRC = x.RTCF_DIRECTSRC
const RTCF_DOREDIRECT = x.RTCF_DOREDIRECT
const RTCF_LOG = x.RTCF_LOG
const RTCF_MASQ = x.RTCF_MASQ
const RTCF_NAT = x.RTCF_NAT
const RTCF_VALVE = x.RTCF_VALVE
const RTF_ADDRCLASSMASK = x.RTF_ADDRCLASSMASK
const RTF_ADDRCONF = x.RTF_ADDRCONF
const RTF_ALLONLINK = x.RTF_ALLONLINK
const RTF_BROADCAST = x.RTF_BROADCAST
const RTF_CACHE = x.RTF_CACHE
const RTF_DEFAULT = x.RTF_DEFAULT
const RTF_DYNAMIC = x.RTF_DYNAMIC
const RTF_FLOW = x.RTF_FLOW
const RTF_GATEWAY = x.RTF_GATEWAY
const RTF_HOST = x.RTF_HOST
const RTF_INTERFACE = x.RTF_INTERFACE
const RTF_IRTT = x.RTF_IRTT
const RTF_LINKRT = x.RTF_LINKRT
const RTF_LOCAL = x.RTF_LOCAL
const RTF_MODIFIED = x.RTF_MODIFIED
const RTF_MSS = x.RTF_MSS
const RTF_MTU = x.RTF_MTU
const RTF_MULTICAST = x.RTF_MULTICAST
const RTF_NAT = x.RTF_NAT
const RTF_NOFORWARD = x.RTF_NOFORWARD
const RTF_NONEXTHOP = x.RTF_NONEXTHOP
const RTF_NOPMTUDISC = x.RTF_NOPMTUDISC
const RTF_POLICY = x.RTF_POLICY
const RTF_REINSTATE = x.RTF_REINSTATE
const RTF_REJECT = x.RTF_REJECT
const RTF_STATIC = x.RTF_STATIC
const RTF_THROW = x.RTF_THROW
const RTF_UP = x.RTF_UP
const RTF_WINDOW = x.RTF_WINDOW
const RTF_XRESOLVE = x.RTF_XRESOLVE
const RTM_BASE = x.RTM_BASE
const RTM_DELACTION = x.RTM_DELACTION
const RTM_DELADDR = x.RTM_DELADDR
const RTM_DELADDRLABEL = x.RTM_DELADDRLABEL
const RTM_DELLINK = x.RTM_DELLINK
const RTM_DELNEIGH = x.RTM_DELNEIGH
const RTM_DELQDISC = x.RTM_DELQDISC
const RTM_DELROUTE = x.RTM_DELROUTE
const RTM_DELRULE = x.RTM_DELRULE
const RTM_DELTCLASS = x.RTM_DELTCLASS
const RTM_DELTFILTER = x.RTM_DELTFILTER
const RTM_F_CLONED = x.RTM_F_CLONED
const RTM_F_EQUALIZE = x.RTM_F_EQUALIZE
const RTM_F_NOTIFY = x.RTM_F_NOTIFY
const RTM_F_PREFIX = x.RTM_F_PREFIX
const RTM_GETACTION = x.RTM_GETACTION
const RTM_GETADDR = x.RTM_GETADDR
const RTM_GETADDRLABEL = x.RTM_GETADDRLABEL
const RTM_GETANYCAST = x.RTM_GETANYCAST
const RTM_GETDCB = x.RTM_GETDCB
const RTM_GETLINK = x.RTM_GETLINK
const RTM_GETMULTICAST = x.RTM_GETMULTICAST
const RTM_GETNEIGH = x.RTM_GETNEIGH
const RTM_GETNEIGHTBL = x.RTM_GETNEIGHTBL
const RTM_GETQDISC = x.RTM_GETQDISC
const RTM_GETROUTE = x.RTM_GETROUTE
const RTM_GETRULE = x.RTM_GETRULE
const RTM_GETTCLASS = x.RTM_GETTCLASS
const RTM_GETTFILTER = x.RTM_GETTFILTER
const RTM_MAX = x.RTM_MAX
const RTM_NEWACTION = x.RTM_NEWACTION
const RTM_NEWADDR = x.RTM_NEWADDR
const RTM_NEWADDRLABEL = x.RTM_NEWADDRLABEL
const RTM_NEWLINK = x.RTM_NEWLINK
const RTM_NEWNDUSEROPT = x.RTM_NEWNDUSEROPT
const RTM_NEWNEIGH = x.RTM_NEWNEIGH
const RTM_NEWNEIGHTBL = x.RTM_NEWNEIGHTBL
const RTM_NEWPREFIX = x.RTM_NEWPREFIX
const RTM_NEWQDISC = x.RTM_NEWQDISC
const RTM_NEWROUTE = x.RTM_NEWROUTE
const RTM_NEWRULE = x.RTM_NEWRULE
const RTM_NEWTCLASS = x.RTM_NEWTCLASS
const RTM_NEWTFILTER = x.RTM_NEWTFILTER
const RTM_NR_FAMILIES = x.RTM_NR_FAMILIES
const RTM_NR_MSGTYPES = x.RTM_NR_MSGTYPES
const RTM_SETDCB = x.RTM_SETDCB
const RTM_SETLINK = x.RTM_SETLINK
const RTM_SETNEIGHTBL = x.RTM_SETNEIGHTBL
const RTNH_ALIGNTO = x.RTNH_ALIGNTO
const RTNH_F_DEAD = x.RTNH_F_DEAD
const RTNH_F_ONLINK = x.RTNH_F_ONLINK
const RTNH_F_PERVASIVE = x.RTNH_F_PERVASIVE
const RTNLGRP_IPV4_IFADDR = x.RTNLGRP_IPV4_IFADDR
const RTNLGRP_IPV4_MROUTE = x.RTNLGRP_IPV4_MROUTE
const RTNLGRP_IPV4_ROUTE = x.RTNLGRP_IPV4_ROUTE
const RTNLGRP_IPV4_RULE = x.RTNLGRP_IPV4_RULE
const RTNLGRP_IPV6_IFADDR = x.RTNLGRP_IPV6_IFADDR
const RTNLGRP_IPV6_IFINFO = x.RTNLGRP_IPV6_IFINFO
const RTNLGRP_IPV6_MROUTE = x.RTNLGRP_IPV6_MROUTE
const RTNLGRP_IPV6_PREFIX = x.RTNLGRP_IPV6_PREFIX
const RTNLGRP_IPV6_ROUTE = x.RTNLGRP_IPV6_ROUTE
const RTNLGRP_IPV6_RULE = x.RTNLGRP_IPV6_RULE
const RTNLGRP_LINK = x.RTNLGRP_LINK
const RTNLGRP_ND_USEROPT = x.RTNLGRP_ND_USEROPT
const RTNLGRP_NEIGH = x.RTNLGRP_NEIGH
const RTNLGRP_NONE = x.RTNLGRP_NONE
const RTNLGRP_NOTIFY = x.RTNLGRP_NOTIFY
const RTNLGRP_TC = x.RTNLGRP_TC
const RTN_ANYCAST = x.RTN_ANYCAST
const RTN_BLACKHOLE = x.RTN_BLACKHOLE
const RTN_BROADCAST = x.RTN_BROADCAST
const RTN_LOCAL = x.RTN_LOCAL
const RTN_MAX = x.RTN_MAX
const RTN_MULTICAST = x.RTN_MULTICAST
const RTN_NAT = x.RTN_NAT
const RTN_PROHIBIT = x.RTN_PROHIBIT
const RTN_THROW = x.RTN_THROW
const RTN_UNICAST = x.RTN_UNICAST
const RTN_UNREACHABLE = x.RTN_UNREACHABLE
const RTN_UNSPEC = x.RTN_UNSPEC
const RTN_XRESOLVE = x.RTN_XRESOLVE
const RTPROT_BIRD = x.RTPROT_BIRD
const RTPROT_BOOT = x.RTPROT_BOOT
const RTPROT_DHCP = x.RTPROT_DHCP
const RTPROT_DNROUTED = x.RTPROT_DNROUTED
const RTPROT_GATED = x.RTPROT_GATED
const RTPROT_KERNEL = x.RTPROT_KERNEL
const RTPROT_MRT = x.RTPROT_MRT
const RTPROT_NTK = x.RTPROT_NTK
const RTPROT_RA = x.RTPROT_RA
const RTPROT_REDIRECT = x.RTPROT_REDIRECT
const RTPROT_STATIC = x.RTPROT_STATIC
const RTPROT_UNSPEC = x.RTPROT_UNSPEC
const RTPROT_XORP = x.RTPROT_XORP
const RTPROT_ZEBRA = x.RTPROT_ZEBRA
const RT_CLASS_DEFAULT = x.RT_CLASS_DEFAULT
const RT_CLASS_LOCAL = x.RT_CLASS_LOCAL
const RT_CLASS_MAIN = x.RT_CLASS_MAIN
const RT_CLASS_MAX = x.RT_CLASS_MAX
const RT_CLASS_UNSPEC = x.RT_CLASS_UNSPEC
const RT_SCOPE_HOST = x.RT_SCOPE_HOST
const RT_SCOPE_LINK = x.RT_SCOPE_LINK
const RT_SCOPE_NOWHERE = x.RT_SCOPE_NOWHERE
const RT_SCOPE_SITE = x.RT_SCOPE_SITE
const RT_SCOPE_UNIVERSE = x.RT_SCOPE_UNIVERSE
const RT_TABLE_COMPAT = x.RT_TABLE_COMPAT
const RT_TABLE_DEFAULT = x.RT_TABLE_DEFAULT
const RT_TABLE_LOCAL = x.RT_TABLE_LOCAL
const RT_TABLE_MAIN = x.RT_TABLE_MAIN
const RT_TABLE_MAX = x.RT_TABLE_MAX
const RT_TABLE_UNSPEC = x.RT_TABLE_UNSPEC
const RUSAGE_CHILDREN = x.RUSAGE_CHILDREN
const RUSAGE_SELF = x.RUSAGE_SELF
const RUSAGE_THREAD = x.RUSAGE_THREAD

type RawConn = x.RawConn
type RawSockaddr = x.RawSockaddr
type RawSockaddrAny = x.RawSockaddrAny
type RawSockaddrInet4 = x.RawSockaddrInet4
type RawSockaddrInet6 = x.RawSockaddrInet6
type RawSockaddrLinklayer = x.RawSockaddrLinklayer
type RawSockaddrNetlink = x.RawSockaddrNetlink
type RawSockaddrUnix = x.RawSockaddrUnix

var RawSyscall = x.RawSyscall
var RawSyscall6 = x.RawSyscall6
var Read = x.Read
var ReadDirent = x.ReadDirent
var Readlink = x.Readlink
var Reboot = x.Reboot
var Recvmsg = x.Recvmsg
var Removexattr = x.Removexattr
var Rename = x.Rename
var Renameat = x.Renameat

type Rlimit = x.Rlimit

var Rmdir = x.Rmdir

type RtAttr = x.RtAttr
type RtGenmsg = x.RtGenmsg
type RtMsg = x.RtMsg
type RtNexthop = x.RtNexthop
type Rusage = x.Rusage

const SCM_CREDENTIALS = x.SCM_CREDENTIALS
const SCM_RIGHTS = x.SCM_RIGHTS
const SCM_TIMESTAMP = x.SCM_TIMESTAMP
const SCM_TIMESTAMPING = x.SCM_TIMESTAMPING
const SCM_TIMESTAMPNS = x.SCM_TIMESTAMPNS
const SHUT_RD = x.SHUT_RD
const SHUT_RDWR = x.SHUT_RDWR
const SHUT_WR = x.SHUT_WR
const SIGABRT = x.SIGABRT
const SIGALRM = x.SIGALRM
const SIGBUS = x.SIGBUS
const SIGCHLD = x.SIGCHLD
const SIGCLD = x.SIGCLD
const SIGCONT = x.SIGCONT
const SIGFPE = x.SIGFPE
const SIGHUP = x.SIGHUP
const SIGILL = x.SIGILL
const SIGINT = x.SIGINT
const SIGIO = x.SIGIO
const SIGIOT = x.SIGIOT
const SIGKILL = x.SIGKILL
const SIGPIPE = x.SIGPIPE
const SIGPOLL = x.SIGPOLL
const SIGPROF = x.SIGPROF
const SIGPWR = x.SIGPWR
const SIGQUIT = x.SIGQUIT
const SIGSEGV = x.SIGSEGV
const SIGSTKFLT = x.SIGSTKFLT
const SIGSTOP = x.SIGSTOP
const SIGSYS = x.SIGSYS
const SIGTERM = x.SIGTERM
const SIGTRAP = x.SIGTRAP
const SIGTSTP = x.SIGTSTP
const SIGTTIN = x.SIGTTIN
const SIGTTOU = x.SIGTTOU
const SIGUNUSED = x.SIGUNUSED
const SIGURG = x.SIGURG
const SIGUSR1 = x.SIGUSR1
const SIGUSR2 = x.SIGUSR2
const SIGVTALRM = x.SIGVTALRM
const SIGWINCH = x.SIGWINCH
const SIGXCPU = x.SIGXCPU
const SIGXFSZ = x.SIGXFSZ
const SIOCADDDLCI = x.SIOCADDDLCI
const SIOCADDMULTI = x.SIOCADDMULTI
const SIOCADDRT = x.SIOCADDRT
const SIOCATMARK = x.SIOCATMARK
const SIOCDARP = x.SIOCDARP
const SIOCDELDLCI = x.SIOCDELDLCI
const SIOCDELMULTI = x.SIOCDELMULTI
const SIOCDELRT = x.SIOCDELRT
const SIOCDEVPRIVATE = x.SIOCDEVPRIVATE
const SIOCDIFADDR = x.SIOCDIFADDR
const SIOCDRARP = x.SIOCDRARP
const SIOCGARP = x.SIOCGARP
const SIOCGIFADDR = x.SIOCGIFADDR
const SIOCGIFBR = x.SIOCGIFBR
const SIOCGIFBRDADDR = x.SIOCGIFBRDADDR
const SIOCGIFCONF = x.SIOCGIFCONF
const SIOCGIFCOUNT = x.SIOCGIFCOUNT
const SIOCGIFDSTADDR = x.SIOCGIFDSTADDR
const SIOCGIFENCAP = x.SIOCGIFENCAP
const SIOCGIFFLAGS = x.SIOCGIFFLAGS
const SIOCGIFHWADDR = x.SIOCGIFHWADDR
const SIOCGIFINDEX = x.SIOCGIFINDEX
const SIOCGIFMAP = x.SIOCGIFMAP
const SIOCGIFMEM = x.SIOCGIFMEM
const SIOCGIFMETRIC = x.SIOCGIFMETRIC
const SIOCGIFMTU = x.SIOCGIFMTU
const SIOCGIFNAME = x.SIOCGIFNAME
const SIOCGIFNETMASK = x.SIOCGIFNETMASK
const SIOCGIFPFLAGS = x.SIOCGIFPFLAGS
const SIOCGIFSLAVE = x.SIOCGIFSLAVE
const SIOCGIFTXQLEN = x.SIOCGIFTXQLEN
const SIOCGPGRP = x.SIOCGPGRP
const SIOCGRARP = x.SIOCGRARP
const SIOCGSTAMP = x.SIOCGSTAMP
const SIOCGSTAMPNS = x.SIOCGSTAMPNS
const SIOCPROTOPRIVATE = x.SIOCPROTOPRIVATE
const SIOCRTMSG = x.SIOCRTMSG
const SIOCSARP = x.SIOCSARP
const SIOCSIFADDR = x.SIOCSIFADDR
const SIOCSIFBR = x.SIOCSIFBR
const SIOCSIFBRDADDR = x.SIOCSIFBRDADDR
const SIOCSIFDSTADDR = x.SIOCSIFDSTADDR
const SIOCSIFENCAP = x.SIOCSIFENCAP
const SIOCSIFFLAGS = x.SIOCSIFFLAGS
const SIOCSIFHWADDR = x.SIOCSIFHWADDR
const SIOCSIFHWBROADCAST = x.SIOCSIFHWBROADCAST
const SIOCSIFLINK = x.SIOCSIFLINK
const SIOCSIFMAP = x.SIOCSIFMAP
const SIOCSIFMEM = x.SIOCSIFMEM
const SIOCSIFMETRIC = x.SIOCSIFMETRIC
const SIOCSIFMTU = x.SIOCSIFMTU
const SIOCSIFNAME = x.SIOCSIFNAME
const SIOCSIFNETMASK = x.SIOCSIFNETMASK
const SIOCSIFPFLAGS = x.SIOCSIFPFLAGS
const SIOCSIFSLAVE = x.SIOCSIFSLAVE
const SIOCSIFTXQLEN = x.SIOCSIFTXQLEN
const SIOCSPGRP = x.SIOCSPGRP
const SIOCSRARP = x.SIOCSRARP
const SOCK_CLOEXEC = x.SOCK_CLOEXEC
const SOCK_DCCP = x.SOCK_DCCP
const SOCK_DGRAM = x.SOCK_DGRAM
const SOCK_NONBLOCK = x.SOCK_NONBLOCK
const SOCK_PACKET = x.SOCK_PACKET
const SOCK_RAW = x.SOCK_RAW
const SOCK_RDM = x.SOCK_RDM
const SOCK_SEQPACKET = x.SOCK_SEQPACKET
const SOCK_STREAM = x.SOCK_STREAM
const SOL_AAL = x.SOL_AAL
const SOL_ATM = x.SOL_ATM
const SOL_DECNET = x.SOL_DECNET
const SOL_ICMPV6 = x.SOL_ICMPV6
const SOL_IP = x.SOL_IP
const SOL_IPV6 = x.SOL_IPV6
const SOL_IRDA = x.SOL_IRDA
const SOL_PACKET = x.SOL_PACKET
const SOL_RAW = x.SOL_RAW
const SOL_SOCKET = x.SOL_SOCKET
const SOL_TCP = x.SOL_TCP
const SOL_X25 = x.SOL_X25
const SOMAXCONN = x.SOMAXCONN
const SO_ACCEPTCONN = x.SO_ACCEPTCONN
const SO_ATTACH_FILTER = x.SO_ATTACH_FILTER
const SO_BINDTODEVICE = x.SO_BINDTODEVICE
const SO_BROADCAST = x.SO_BROADCAST
const SO_BSDCOMPAT = x.SO_BSDCOMPAT
const SO_DEBUG = x.SO_DEBUG
const SO_DETACH_FILTER = x.SO_DETACH_FILTER
const SO_DOMAIN = x.SO_DOMAIN
const SO_DONTROUTE = x.SO_DONTROUTE
const SO_ERROR = x.SO_ERROR
const SO_KEEPALIVE = x.SO_KEEPALIVE
const SO_LINGER = x.SO_LINGER
const SO_MARK = x.SO_MARK
const SO_NO_CHECK = x.SO_NO_CHECK
const SO_OOBINLINE = x.SO_OOBINLINE
const SO_PASSCRED = x.SO_PASSCRED
const SO_PASSSEC = x.SO_PASSSEC
const SO_PEERCRED = x.SO_PEERCRED
const SO_PEERNAME = x.SO_PEERNAME
const SO_PEERSEC = x.SO_PEERSEC
const SO_PRIORITY = x.SO_PRIORITY
const SO_PROTOCOL = x.SO_PROTOCOL
const SO_RCVBUF = x.SO_RCVBUF
const SO_RCVBUFFORCE = x.SO_RCVBUFFORCE
const SO_RCVLOWAT = x.SO_RCVLOWAT
const SO_RCVTIMEO = x.SO_RCVTIMEO
const SO_REUSEADDR = x.SO_REUSEADDR
const SO_RXQ_OVFL = x.SO_RXQ_OVFL
const SO_SECURITY_AUTHENTICATION = x.SO_SECURITY_AUTHENTICATION
const SO_SECURITY_ENCRYPTION_NETWORK = x.SO_SECURITY_ENCRYPTION_NETWORK
const SO_SECURITY_ENCRYPTION_TRANSPORT = x.SO_SECURITY_ENCRYPTION_TRANSPORT
const SO_SNDBUF = x.SO_SNDBUF
const SO_SNDBUFFORCE = x.SO_SNDBUFFORCE
const SO_SNDLOWAT = x.SO_SNDLOWAT
const SO_SNDTIMEO = x.SO_SNDTIMEO
const SO_TIMESTAMP = x.SO_TIMESTAMP
const SO_TIMESTAMPING = x.SO_TIMESTAMPING
const SO_TIMESTAMPNS = x.SO_TIMESTAMPNS
const SO_TYPE = x.SO_TYPE
const SYS_ACCEPT = x.SYS_ACCEPT
const SYS_ACCEPT4 = x.SYS_ACCEPT4
const SYS_ACCESS = x.SYS_ACCESS
const SYS_ACCT = x.SYS_ACCT
const SYS_ADD_KEY = x.SYS_ADD_KEY
const SYS_ADJTIMEX = x.SYS_ADJTIMEX
const SYS_AFS_SYSCALL = x.SYS_AFS_SYSCALL
const SYS_ALARM = x.SYS_ALARM
const SYS_ARCH_PRCTL = x.SYS_ARCH_PRCTL
const SYS_BIND = x.SYS_BIND
const SYS_BRK = x.SYS_BRK
const SYS_CAPGET = x.SYS_CAPGET
const SYS_CAPSET = x.SYS_CAPSET
const SYS_CHDIR = x.SYS_CHDIR
const SYS_CHMOD = x.SYS_CHMOD
const SYS_CHOWN = x.SYS_CHOWN
const SYS_CHROOT = x.SYS_CHROOT
const SYS_CLOCK_GETRES = x.SYS_CLOCK_GETRES
const SYS_CLOCK_GETTIME = x.SYS_CLOCK_GETTIME
const SYS_CLOCK_NANOSLEEP = x.SYS_CLOCK_NANOSLEEP
const SYS_CLOCK_SETTIME = x.SYS_CLOCK_SETTIME
const SYS_CLONE = x.SYS_CLONE
const SYS_CLOSE = x.SYS_CLOSE
const SYS_CONNECT = x.SYS_CONNECT
const SYS_CREAT = x.SYS_CREAT
const SYS_CREATE_MODULE = x.SYS_CREATE_MODULE
const SYS_DELETE_MODULE = x.SYS_DELETE_MODULE
const SYS_DUP = x.SYS_DUP
const SYS_DUP2 = x.SYS_DUP2
const SYS_DUP3 = x.SYS_DUP3
const SYS_EPOLL_CREATE = x.SYS_EPOLL_CREATE
const SYS_EPOLL_CREATE1 = x.SYS_EPOLL_CREATE1
const SYS_EPOLL_CTL = x.SYS_EPOLL_CTL
const SYS_EPOLL_CTL_OLD = x.SYS_EPOLL_CTL_OLD
const SYS_EPOLL_PWAIT = x.SYS_EPOLL_PWAIT
const SYS_EPOLL_WAIT = x.SYS_EPOLL_WAIT
const SYS_EPOLL_WAIT_OLD = x.SYS_EPOLL_WAIT_OLD
const SYS_EVENTFD = x.SYS_EVENTFD
const SYS_EVENTFD2 = x.SYS_EVENTFD2
const SYS_EXECVE = x.SYS_EXECVE
const SYS_EXIT = x.SYS_EXIT
const SYS_EXIT_GROUP = x.SYS_EXIT_GROUP
const SYS_FACCESSAT = x.SYS_FACCESSAT
const SYS_FADVISE64 = x.SYS_FADVISE64
const SYS_FALLOCATE = x.SYS_FALLOCATE
const SYS_FANOTIFY_INIT = x.SYS_FANOTIFY_INIT
const SYS_FANOTIFY_MARK = x.SYS_FANOTIFY_MARK
const SYS_FCHDIR = x.SYS_FCHDIR
const SYS_FCHMOD = x.SYS_FCHMOD
const SYS_FCHMODAT = x.SYS_FCHMODAT
const SYS_FCHOWN = x.SYS_FCHOWN
const SYS_FCHOWNAT = x.SYS_FCHOWNAT
const SYS_FCNTL = x.SYS_FCNTL
const SYS_FDATASYNC = x.SYS_FDATASYNC
const SYS_FGETXATTR = x.SYS_FGETXATTR
const SYS_FLISTXATTR = x.SYS_FLISTXATTR
const SYS_FLOCK = x.SYS_FLOCK
const SYS_FORK = x.SYS_FORK
const SYS_FREMOVEXATTR = x.SYS_FREMOVEXATTR
const SYS_FSETXATTR = x.SYS_FSETXATTR
const SYS_FSTAT = x.SYS_FSTAT
const SYS_FSTATFS = x.SYS_FSTATFS
const SYS_FSYNC = x.SYS_FSYNC
const SYS_FTRUNCATE = x.SYS_FTRUNCATE
const SYS_FUTEX = x.SYS_FUTEX
const SYS_FUTIMESAT = x.SYS_FUTIMESAT
const SYS_GETCWD = x.SYS_GETCWD
const SYS_GETDENTS = x.SYS_GETDENTS
const SYS_GETDENTS64 = x.SYS_GETDENTS64
const SYS_GETEGID = x.SYS_GETEGID
const SYS_GETEUID = x.SYS_GETEUID
const SYS_GETGID = x.SYS_GETGID
const SYS_GETGROUPS = x.SYS_GETGROUPS
const SYS_GETITIMER = x.SYS_GETITIMER
const SYS_GETPEERNAME = x.SYS_GETPEERNAME
const SYS_GETPGID = x.SYS_GETPGID
const SYS_GETPGRP = x.SYS_GETPGRP
const SYS_GETPID = x.SYS_GETPID
const SYS_GETPMSG = x.SYS_GETPMSG
const SYS_GETPPID = x.SYS_GETPPID
const SYS_GETPRIORITY = x.SYS_GETPRIORITY
const SYS_GETRESGID = x.SYS_GETRESGID
const SYS_GETRESUID = x.SYS_GETRESUID
const SYS_GETRLIMIT = x.SYS_GETRLIMIT
const SYS_GETRUSAGE = x.SYS_GETRUSAGE
const SYS_GETSID = x.SYS_GETSID
const SYS_GETSOCKNAME = x.SYS_GETSOCKNAME
const SYS_GETSOCKOPT = x.SYS_GETSOCKOPT
const SYS_GETTID = x.SYS_GETTID
const SYS_GETTIMEOFDAY = x.SYS_GETTIMEOFDAY
const SYS_GETUID = x.SYS_GETUID
const SYS_GETXATTR = x.SYS_GETXATTR
const SYS_GET_KERNEL_SYMS = x.SYS_GET_KERNEL_SYMS
const SYS_GET_MEMPOLICY = x.SYS_GET_MEMPOLICY
const SYS_GET_ROBUST_LIST = x.SYS_GET_ROBUST_LIST
const SYS_GET_THREAD_AREA = x.SYS_GET_THREAD_AREA
const SYS_INIT_MODULE = x.SYS_INIT_MODULE
const SYS_INOTIFY_ADD_WATCH = x.SYS_INOTIFY_ADD_WATCH
const SYS_INOTIFY_INIT = x.SYS_INOTIFY_INIT
const SYS_INOTIFY_INIT1 = x.SYS_INOTIFY_INIT1
const SYS_INOTIFY_RM_WATCH = x.SYS_INOTIFY_RM_WATCH
const SYS_IOCTL = x.SYS_IOCTL
const SYS_IOPERM = x.SYS_IOPERM
const SYS_IOPL = x.SYS_IOPL
const SYS_IOPRIO_GET = x.SYS_IOPRIO_GET
const SYS_IOPRIO_SET = x.SYS_IOPRIO_SET
const SYS_IO_CANCEL = x.SYS_IO_CANCEL
const SYS_IO_DESTROY = x.SYS_IO_DESTROY
const SYS_IO_GETEVENTS = x.SYS_IO_GETEVENTS
const SYS_IO_SETUP = x.SYS_IO_SETUP
const SYS_IO_SUBMIT = x.SYS_IO_SUBMIT
const SYS_KEXEC_LOAD = x.SYS_KEXEC_LOAD
const SYS_KEYCTL = x.SYS_KEYCTL
const SYS_KILL = x.SYS_KILL
const SYS_LCHOWN = x.SYS_LCHOWN
const SYS_LGETXATTR = x.SYS_LGETXATTR
const SYS_LINK = x.SYS_LINK
const SYS_LINKAT = x.SYS_LINKAT
const SYS_LISTEN = x.SYS_LISTEN
const SYS_LISTXATTR = x.SYS_LISTXATTR
const SYS_LLISTXATTR = x.SYS_LLISTXATTR
const SYS_LOOKUP_DCOOKIE = x.SYS_LOOKUP_DCOOKIE
const SYS_LREMOVEXATTR = x.SYS_LREMOVEXATTR
const SYS_LSEEK = x.SYS_LSEEK
const SYS_LSETXATTR = x.SYS_LSETXATTR
const SYS_LSTAT = x.SYS_LSTAT
const SYS_MADVISE = x.SYS_MADVISE
const SYS_MBIND = x.SYS_MBIND
const SYS_MIGRATE_PAGES = x.SYS_MIGRATE_PAGES
const SYS_MINCORE = x.SYS_MINCORE
const SYS_MKDIR = x.SYS_MKDIR
const SYS_MKDIRAT = x.SYS_MKDIRAT
const SYS_MKNOD = x.SYS_MKNOD
const SYS_MKNODAT = x.SYS_MKNODAT
const SYS_MLOCK = x.SYS_MLOCK
const SYS_MLOCKALL = x.SYS_MLOCKALL
const SYS_MMAP = x.SYS_MMAP
const SYS_MODIFY_LDT = x.SYS_MODIFY_LDT
const SYS_MOUNT = x.SYS_MOUNT
const SYS_MOVE_PAGES = x.SYS_MOVE_PAGES
const SYS_MPROTECT = x.SYS_MPROTECT
const SYS_MQ_GETSETATTR = x.SYS_MQ_GETSETATTR
const SYS_MQ_NOTIFY = x.SYS_MQ_NOTIFY
const SYS_MQ_OPEN = x.SYS_MQ_OPEN
const SYS_MQ_TIMEDRECEIVE = x.SYS_MQ_TIMEDRECEIVE
const SYS_MQ_TIMEDSEND = x.SYS_MQ_TIMEDSEND
const SYS_MQ_UNLINK = x.SYS_MQ_UNLINK
const SYS_MREMAP = x.SYS_MREMAP
const SYS_MSGCTL = x.SYS_MSGCTL
const SYS_MSGGET = x.SYS_MSGGET
const SYS_MSGRCV = x.SYS_MSGRCV
const SYS_MSGSND = x.SYS_MSGSND
const SYS_MSYNC = x.SYS_MSYNC
const SYS_MUNLOCK = x.SYS_MUNLOCK
const SYS_MUNLOCKALL = x.SYS_MUNLOCKALL
const SYS_MUNMAP = x.SYS_MUNMAP
const SYS_NANOSLEEP = x.SYS_NANOSLEEP
const SYS_NEWFSTATAT = x.SYS_NEWFSTATAT
const SYS_NFSSERVCTL = x.SYS_NFSSERVCTL
const SYS_OPEN = x.SYS_OPEN
const SYS_OPENAT = x.SYS_OPENAT
const SYS_PAUSE = x.SYS_PAUSE
const SYS_PERF_EVENT_OPEN = x.SYS_PERF_EVENT_OPEN
const SYS_PERSONALITY = x.SYS_PERSONALITY
const SYS_PIPE = x.SYS_PIPE
const SYS_PIPE2 = x.SYS_PIPE2
const SYS_PIVOT_ROOT = x.SYS_PIVOT_ROOT
const SYS_POLL = x.SYS_POLL
const SYS_PPOLL = x.SYS_PPOLL
const SYS_PRCTL = x.SYS_PRCTL
const SYS_PREAD64 = x.SYS_PREAD64
const SYS_PREADV = x.SYS_PREADV
const SYS_PRLIMIT64 = x.SYS_PRLIMIT64
const SYS_PSELECT6 = x.SYS_PSELECT6
const SYS_PTRACE = x.SYS_PTRACE
const SYS_PUTPMSG = x.SYS_PUTPMSG
const SYS_PWRITE64 = x.SYS_PWRITE64
const SYS_PWRITEV = x.SYS_PWRITEV
const SYS_QUERY_MODULE = x.SYS_QUERY_MODULE
const SYS_QUOTACTL = x.SYS_QUOTACTL
const SYS_READ = x.SYS_READ
const SYS_READAHEAD = x.SYS_READAHEAD
const SYS_READLINK = x.SYS_READLINK
const SYS_READLINKAT = x.SYS_READLINKAT
const SYS_READV = x.SYS_READV
const SYS_REBOOT = x.SYS_REBOOT
const SYS_RECVFROM = x.SYS_RECVFROM
const SYS_RECVMMSG = x.SYS_RECVMMSG
const SYS_RECVMSG = x.SYS_RECVMSG
const SYS_REMAP_FILE_PAGES = x.SYS_REMAP_FILE_PAGES
const SYS_REMOVEXATTR = x.SYS_REMOVEXATTR
const SYS_RENAME = x.SYS_RENAME
const SYS_RENAMEAT = x.SYS_RENAMEAT
const SYS_REQUEST_KEY = x.SYS_REQUEST_KEY
const SYS_RESTART_SYSCALL = x.SYS_RESTART_SYSCALL
const SYS_RMDIR = x.SYS_RMDIR
const SYS_RT_SIGACTION = x.SYS_RT_SIGACTION
const SYS_RT_SIGPENDING = x.SYS_RT_SIGPENDING
const SYS_RT_SIGPROCMASK = x.SYS_RT_SIGPROCMASK
const SYS_RT_SIGQUEUEINFO = x.SYS_RT_SIGQUEUEINFO
const SYS_RT_SIGRETURN = x.SYS_RT_SIGRETURN
const SYS_RT_SIGSUSPEND = x.SYS_RT_SIGSUSPEND
const SYS_RT_SIGTIMEDWAIT = x.SYS_RT_SIGTIMEDWAIT
const SYS_RT_TGSIGQUEUEINFO = x.SYS_RT_TGSIGQUEUEINFO
const SYS_SCHED_GETAFFINITY = x.SYS_SCHED_GETAFFINITY
const SYS_SCHED_GETPARAM = x.SYS_SCHED_GETPARAM
const SYS_SCHED_GETSCHEDULER = x.SYS_SCHED_GETSCHEDULER
const SYS_SCHED_GET_PRIORITY_MAX = x.SYS_SCHED_GET_PRIORITY_MAX
const SYS_SCHED_GET_PRIORITY_MIN = x.SYS_SCHED_GET_PRIORITY_MIN
const SYS_SCHED_RR_GET_INTERVAL = x.SYS_SCHED_RR_GET_INTERVAL
const SYS_SCHED_SETAFFINITY = x.SYS_SCHED_SETAFFINITY
const SYS_SCHED_SETPARAM = x.SYS_SCHED_SETPARAM
const SYS_SCHED_SETSCHEDULER = x.SYS_SCHED_SETSCHEDULER
const SYS_SCHED_YIELD = x.SYS_SCHED_YIELD
const SYS_SECURITY = x.SYS_SECURITY
const SYS_SELECT = x.SYS_SELECT
const SYS_SEMCTL = x.SYS_SEMCTL
const SYS_SEMGET = x.SYS_SEMGET
const SYS_SEMOP = x.SYS_SEMOP
const SYS_SEMTIMEDOP = x.SYS_SEMTIMEDOP
const SYS_SENDFILE = x.SYS_SENDFILE
const SYS_SENDMSG = x.SYS_SENDMSG
const SYS_SENDTO = x.SYS_SENDTO
const SYS_SETDOMAINNAME = x.SYS_SETDOMAINNAME
const SYS_SETFSGID = x.SYS_SETFSGID
const SYS_SETFSUID = x.SYS_SETFSUID
const SYS_SETGID = x.SYS_SETGID
const SYS_SETGROUPS = x.SYS_SETGROUPS
const SYS_SETHOSTNAME = x.SYS_SETHOSTNAME
const SYS_SETITIMER = x.SYS_SETITIMER
const SYS_SETPGID = x.SYS_SETPGID
const SYS_SETPRIORITY = x.SYS_SETPRIORITY
const SYS_SETREGID = x.SYS_SETREGID
const SYS_SETRESGID = x.SYS_SETRESGID
const SYS_SETRESUID = x.SYS_SETRESUID
const SYS_SETREUID = x.SYS_SETREUID
const SYS_SETRLIMIT = x.SYS_SETRLIMIT
const SYS_SETSID = x.SYS_SETSID
const SYS_SETSOCKOPT = x.SYS_SETSOCKOPT
const SYS_SETTIMEOFDAY = x.SYS_SETTIMEOFDAY
const SYS_SETUID = x.SYS_SETUID
const SYS_SETXATTR = x.SYS_SETXATTR
const SYS_SET_MEMPOLICY = x.SYS_SET_MEMPOLICY
const SYS_SET_ROBUST_LIST = x.SYS_SET_ROBUST_LIST
const SYS_SET_THREAD_AREA = x.SYS_SET_THREAD_AREA
const SYS_SET_TID_ADDRESS = x.SYS_SET_TID_ADDRESS
const SYS_SHMAT = x.SYS_SHMAT
const SYS_SHMCTL = x.SYS_SHMCTL
const SYS_SHMDT = x.SYS_SHMDT
const SYS_SHMGET = x.SYS_SHMGET
const SYS_SHUTDOWN = x.SYS_SHUTDOWN
const SYS_SIGALTSTACK = x.SYS_SIGALTSTACK
const SYS_SIGNALFD = x.SYS_SIGNALFD
const SYS_SIGNALFD4 = x.SYS_SIGNALFD4
const SYS_SOCKET = x.SYS_SOCKET
const SYS_SOCKETPAIR = x.SYS_SOCKETPAIR
const SYS_SPLICE = x.SYS_SPLICE
const SYS_STAT = x.SYS_STAT
const SYS_STATFS = x.SYS_STATFS
const SYS_SWAPOFF = x.SYS_SWAPOFF
const SYS_SWAPON = x.SYS_SWAPON
const SYS_SYMLINK = x.SYS_SYMLINK
const SYS_SYMLINKAT = x.SYS_SYMLINKAT
const SYS_SYNC = x.SYS_SYNC
const SYS_SYNC_FILE_RANGE = x.SYS_SYNC_FILE_RANGE
const SYS_SYSFS = x.SYS_SYSFS
const SYS_SYSINFO = x.SYS_SYSINFO
const SYS_SYSLOG = x.SYS_SYSLOG
const SYS_TEE = x.SYS_TEE
const SYS_TGKILL = x.SYS_TGKILL
const SYS_TIME = x.SYS_TIME
const SYS_TIMERFD_CREATE = x.SYS_TIMERFD_CREATE
const SYS_TIMERFD_GETTIME = x.SYS_TIMERFD_GETTIME
const SYS_TIMERFD_SETTIME = x.SYS_TIMERFD_SETTIME
const SYS_TIMER_CREATE = x.SYS_TIMER_CREATE
const SYS_TIMER_DELETE = x.SYS_TIMER_DELETE
const SYS_TIMER_GETOVERRUN = x.SYS_TIMER_GETOVERRUN
const SYS_TIMER_GETTIME = x.SYS_TIMER_GETTIME
const SYS_TIMER_SETTIME = x.SYS_TIMER_SETTIME
const SYS_TIMES = x.SYS_TIMES
const SYS_TKILL = x.SYS_TKILL
const SYS_TRUNCATE = x.SYS_TRUNCATE
const SYS_TUXCALL = x.SYS_TUXCALL
const SYS_UMASK = x.SYS_UMASK
const SYS_UMOUNT2 = x.SYS_UMOUNT2
const SYS_UNAME = x.SYS_UNAME
const SYS_UNLINK = x.SYS_UNLINK
const SYS_UNLINKAT = x.SYS_UNLINKAT
const SYS_UNSHARE = x.SYS_UNSHARE
const SYS_USELIB = x.SYS_USELIB
const SYS_USTAT = x.SYS_USTAT
const SYS_UTIME = x.SYS_UTIME
const SYS_UTIMENSAT = x.SYS_UTIMENSAT
const SYS_UTIMES = x.SYS_UTIMES
const SYS_VFORK = x.SYS_VFORK
const SYS_VHANGUP = x.SYS_VHANGUP
const SYS_VMSPLICE = x.SYS_VMSPLICE
const SYS_VSERVER = x.SYS_VSERVER
const SYS_WAIT4 = x.SYS_WAIT4
const SYS_WAITID = x.SYS_WAITID
const SYS_WRITE = x.SYS_WRITE
const SYS_WRITEV = x.SYS_WRITEV
const SYS__SYSCTL = x.SYS__SYSCTL
const S_BLKSIZE = x.S_BLKSIZE
const S_IEXEC = x.S_IEXEC
const S_IFBLK = x.S_IFBLK
const S_IFCHR = x.S_IFCHR
const S_IFDIR = x.S_IFDIR
const S_IFIFO = x.S_IFIFO
const S_IFLNK = x.S_IFLNK
const S_IFMT = x.S_IFMT
const S_IFREG = x.S_IFREG
const S_IFSOCK = x.S_IFSOCK
const S_IREAD = x.S_IREAD
const S_IRGRP = x.S_IRGRP
const S_IROTH = x.S_IROTH
const S_IRUSR = x.S_IRUSR
const S_IRWXG = x.S_IRWXG
const S_IRWXO = x.S_IRWXO
const S_IRWXU = x.S_IRWXU
const S_ISGID = x.S_ISGID
const S_ISUID = x.S_ISUID
const S_ISVTX = x.S_ISVTX
const S_IWGRP = x.S_IWGRP
const S_IWOTH = x.S_IWOTH
const S_IWRITE = x.S_IWRITE
const S_IWUSR = x.S_IWUSR
const S_IXGRP = x.S_IXGRP
const S_IXOTH = x.S_IXOTH
const S_IXUSR = x.S_IXUSR

var Seek = x.Seek
var Select = x.Select
var Sendfile = x.Sendfile
var Sendmsg = x.Sendmsg
var SendmsgN = x.SendmsgN
var Sendto = x.Sendto
var SetLsfPromisc = x.SetLsfPromisc
var SetNonblock = x.SetNonblock
var Setdomainname = x.Setdomainname
var Setegid = x.Setegid
var Setenv = x.Setenv
var Seteuid = x.Seteuid
var Setfsgid = x.Setfsgid
var Setfsuid = x.Setfsuid
var Setgid = x.Setgid
var Setgroups = x.Setgroups
var Sethostname = x.Sethostname
var Setpgid = x.Setpgid
var Setpriority = x.Setpriority
var Setregid = x.Setregid
var Setresgid = x.Setresgid
var Setresuid = x.Setresuid
var Setreuid = x.Setreuid
var Setrlimit = x.Setrlimit
var Setsid = x.Setsid
var SetsockoptByte = x.SetsockoptByte
var SetsockoptICMPv6Filter = x.SetsockoptICMPv6Filter
var SetsockoptIPMreq = x.SetsockoptIPMreq
var SetsockoptIPMreqn = x.SetsockoptIPMreqn
var SetsockoptIPv6Mreq = x.SetsockoptIPv6Mreq
var SetsockoptInet4Addr = x.SetsockoptInet4Addr
var SetsockoptInt = x.SetsockoptInt
var SetsockoptLinger = x.SetsockoptLinger
var SetsockoptString = x.SetsockoptString
var SetsockoptTimeval = x.SetsockoptTimeval
var Settimeofday = x.Settimeofday
var Setuid = x.Setuid
var Setxattr = x.Setxattr
var Shutdown = x.Shutdown

type Signal = x.Signal

const SizeofCmsghdr = x.SizeofCmsghdr
const SizeofICMPv6Filter = x.SizeofICMPv6Filter
const SizeofIPMreq = x.SizeofIPMreq
const SizeofIPMreqn = x.SizeofIPMreqn
const SizeofIPv6MTUInfo = x.SizeofIPv6MTUInfo
const SizeofIPv6Mreq = x.SizeofIPv6Mreq
const SizeofIfAddrmsg = x.SizeofIfAddrmsg
const SizeofIfInfomsg = x.SizeofIfInfomsg
const SizeofInet4Pktinfo = x.SizeofInet4Pktinfo
const SizeofInet6Pktinfo = x.SizeofInet6Pktinfo
const SizeofInotifyEvent = x.SizeofInotifyEvent
const SizeofLinger = x.SizeofLinger
const SizeofMsghdr = x.SizeofMsghdr
const SizeofNlAttr = x.SizeofNlAttr
const SizeofNlMsgerr = x.SizeofNlMsgerr
const SizeofNlMsghdr = x.SizeofNlMsghdr
const SizeofRtAttr = x.SizeofRtAttr
const SizeofRtGenmsg = x.SizeofRtGenmsg
const SizeofRtMsg = x.SizeofRtMsg
const SizeofRtNexthop = x.SizeofRtNexthop
const SizeofSockFilter = x.SizeofSockFilter
const SizeofSockFprog = x.SizeofSockFprog
const SizeofSockaddrAny = x.SizeofSockaddrAny
const SizeofSockaddrInet4 = x.SizeofSockaddrInet4
const SizeofSockaddrInet6 = x.SizeofSockaddrInet6
const SizeofSockaddrLinklayer = x.SizeofSockaddrLinklayer
const SizeofSockaddrNetlink = x.SizeofSockaddrNetlink
const SizeofSockaddrUnix = x.SizeofSockaddrUnix
const SizeofTCPInfo = x.SizeofTCPInfo
const SizeofUcred = x.SizeofUcred

var SlicePtrFromStrings = x.SlicePtrFromStrings

type SockFilter = x.SockFilter
type SockFprog = x.SockFprog
type Sockaddr = x.Sockaddr
type SockaddrInet4 = x.SockaddrInet4
type SockaddrInet6 = x.SockaddrInet6
type SockaddrLinklayer = x.SockaddrLinklayer
type SockaddrNetlink = x.SockaddrNetlink
type SockaddrUnix = x.SockaddrUnix

var Socket = x.Socket

type SocketControlMessage = x.SocketControlMessage

var SocketDisableIPv6 = x.SocketDisableIPv6
var Socketpair = x.Socketpair
var Splice = x.Splice
var StartProcess = x.StartProcess
var Stat = x.Stat

type Stat_t = x.Stat_t

var Statfs = x.Statfs

type Statfs_t = x.Statfs_t

var Stderr = x.Stderr
var Stdin = x.Stdin
var Stdout = x.Stdout
var StringBytePtr = x.StringBytePtr
var StringByteSlice = x.StringByteSlice
var StringSlicePtr = x.StringSlicePtr
var Symlink = x.Symlink
var Sync = x.Sync
var SyncFileRange = x.SyncFileRange

type SysProcAttr = x.SysProcAttr
type SysProcIDMap = x.SysProcIDMap

var Syscall = x.Syscall
var Syscall6 = x.Syscall6
var Sysinfo = x.Sysinfo

type Sysinfo_t = x.Sysinfo_t

const TCGETS = x.TCGETS
const TCIFLUSH = x.TCIFLUSH
const TCIOFLUSH = x.TCIOFLUSH
const TCOFLUSH = x.TCOFLUSH

type TCPInfo = x.TCPInfo

const TCP_CONGESTION = x.TCP_CONGESTION
const TCP_CORK = x.TCP_CORK
const TCP_DEFER_ACCEPT = x.TCP_DEFER_ACCEPT
const TCP_INFO = x.TCP_INFO
const TCP_KEEPCNT = x.TCP_KEEPCNT
const TCP_KEEPIDLE = x.TCP_KEEPIDLE
const TCP_KEEPINTVL = x.TCP_KEEPINTVL
const TCP_LINGER2 = x.TCP_LINGER2
const TCP_MAXSEG = x.TCP_MAXSEG
const TCP_MAXWIN = x.TCP_MAXWIN
const TCP_MAX_WINSHIFT = x.TCP_MAX_WINSHIFT
const TCP_MD5SIG = x.TCP_MD5SIG
const TCP_MD5SIG_MAXKEYLEN = x.TCP_MD5SIG_MAXKEYLEN
const TCP_MSS = x.TCP_MSS
const TCP_NODELAY = x.TCP_NODELAY
const TCP_QUICKACK = x.TCP_QUICKACK
const TCP_SYNCNT = x.TCP_SYNCNT
const TCP_WINDOW_CLAMP = x.TCP_WINDOW_CLAMP
const TCSETS = x.TCSETS
const TIOCCBRK = x.TIOCCBRK
const TIOCCONS = x.TIOCCONS
const TIOCEXCL = x.TIOCEXCL
const TIOCGDEV = x.TIOCGDEV
const TIOCGETD = x.TIOCGETD
const TIOCGICOUNT = x.TIOCGICOUNT
const TIOCGLCKTRMIOS = x.TIOCGLCKTRMIOS
const TIOCGPGRP = x.TIOCGPGRP
const TIOCGPTN = x.TIOCGPTN
const TIOCGRS485 = x.TIOCGRS485
const TIOCGSERIAL = x.TIOCGSERIAL
const TIOCGSID = x.TIOCGSID
const TIOCGSOFTCAR = x.TIOCGSOFTCAR
const TIOCGWINSZ = x.TIOCGWINSZ
const TIOCINQ = x.TIOCINQ
const TIOCLINUX = x.TIOCLINUX
const TIOCMBIC = x.TIOCMBIC
const TIOCMBIS = x.TIOCMBIS
const TIOCMGET = x.TIOCMGET
const TIOCMIWAIT = x.TIOCMIWAIT
const TIOCMSET = x.TIOCMSET
const TIOCM_CAR = x.TIOCM_CAR
const TIOCM_CD = x.TIOCM_CD
const TIOCM_CTS = x.TIOCM_CTS
const TIOCM_DSR = x.TIOCM_DSR
const TIOCM_DTR = x.TIOCM_DTR
const TIOCM_LE = x.TIOCM_LE
const TIOCM_RI = x.TIOCM_RI
const TIOCM_RNG = x.TIOCM_RNG
const TIOCM_RTS = x.TIOCM_RTS
const TIOCM_SR = x.TIOCM_SR
const TIOCM_ST = x.TIOCM_ST
const TIOCNOTTY = x.TIOCNOTTY
const TIOCNXCL = x.TIOCNXCL
const TIOCOUTQ = x.TIOCOUTQ
const TIOCPKT = x.TIOCPKT
const TIOCPKT_DATA = x.TIOCPKT_DATA
const TIOCPKT_DOSTOP = x.TIOCPKT_DOSTOP
const TIOCPKT_FLUSHREAD = x.TIOCPKT_FLUSHREAD
const TIOCPKT_FLUSHWRITE = x.TIOCPKT_FLUSHWRITE
const TIOCPKT_IOCTL = x.TIOCPKT_IOCTL
const TIOCPKT_NOSTOP = x.TIOCPKT_NOSTOP
const TIOCPKT_START = x.TIOCPKT_START
const TIOCPKT_STOP = x.TIOCPKT_STOP
const TIOCSBRK = x.TIOCSBRK
const TIOCSCTTY = x.TIOCSCTTY
const TIOCSERCONFIG = x.TIOCSERCONFIG
const TIOCSERGETLSR = x.TIOCSERGETLSR
const TIOCSERGETMULTI = x.TIOCSERGETMULTI
const TIOCSERGSTRUCT = x.TIOCSERGSTRUCT
const TIOCSERGWILD = x.TIOCSERGWILD
const TIOCSERSETMULTI = x.TIOCSERSETMULTI
const TIOCSERSWILD = x.TIOCSERSWILD
const TIOCSER_TEMT = x.TIOCSER_TEMT
const TIOCSETD = x.TIOCSETD
const TIOCSIG = x.TIOCSIG
const TIOCSLCKTRMIOS = x.TIOCSLCKTRMIOS
const TIOCSPGRP = x.TIOCSPGRP
const TIOCSPTLCK = x.TIOCSPTLCK
const TIOCSRS485 = x.TIOCSRS485
const TIOCSSERIAL = x.TIOCSSERIAL
const TIOCSSOFTCAR = x.TIOCSSOFTCAR
const TIOCSTI = x.TIOCSTI
const TIOCSWINSZ = x.TIOCSWINSZ
const TOSTOP = x.TOSTOP
const TUNATTACHFILTER = x.TUNATTACHFILTER
const TUNDETACHFILTER = x.TUNDETACHFILTER
const TUNGETFEATURES = x.TUNGETFEATURES
const TUNGETIFF = x.TUNGETIFF
const TUNGETSNDBUF = x.TUNGETSNDBUF
const TUNGETVNETHDRSZ = x.TUNGETVNETHDRSZ
const TUNSETDEBUG = x.TUNSETDEBUG
const TUNSETGROUP = x.TUNSETGROUP
const TUNSETIFF = x.TUNSETIFF
const TUNSETLINK = x.TUNSETLINK
const TUNSETNOCSUM = x.TUNSETNOCSUM
const TUNSETOFFLOAD = x.TUNSETOFFLOAD
const TUNSETOWNER = x.TUNSETOWNER
const TUNSETPERSIST = x.TUNSETPERSIST
const TUNSETSNDBUF = x.TUNSETSNDBUF
const TUNSETTXFILTER = x.TUNSETTXFILTER
const TUNSETVNETHDRSZ = x.TUNSETVNETHDRSZ

var Tee = x.Tee

type Termios = x.Termios

var Tgkill = x.Tgkill
var Time = x.Time

type Time_t = x.Time_t

var Times = x.Times

type Timespec = x.Timespec

var TimespecToNsec = x.TimespecToNsec

type Timeval = x.Timeval

var TimevalToNsec = x.TimevalToNsec

type Timex = x.Timex
type Tms = x.Tms

var Truncate = x.Truncate

type Ucred = x.Ucred

var Umask = x.Umask
var Uname = x.Uname
var UnixCredentials = x.UnixCredentials
var UnixRights = x.UnixRights
var Unlink = x.Unlink
var Unlinkat = x.Unlinkat
var Unmount = x.Unmount
var Unsetenv = x.Unsetenv
var Unshare = x.Unshare
var Ustat = x.Ustat

type Ustat_t = x.Ustat_t
type Utimbuf = x.Utimbuf

var Utime = x.Utime
var Utimes = x.Utimes
var UtimesNano = x.UtimesNano

type Utsname = x.Utsname

const VDISCARD = x.VDISCARD
const VEOF = x.VEOF
const VEOL = x.VEOL
const VEOL2 = x.VEOL2
const VERASE = x.VERASE
const VINTR = x.VINTR
const VKILL = x.VKILL
const VLNEXT = x.VLNEXT
const VMIN = x.VMIN
const VQUIT = x.VQUIT
const VREPRINT = x.VREPRINT
const VSTART = x.VSTART
const VSTOP = x.VSTOP
const VSUSP = x.VSUSP
const VSWTC = x.VSWTC
const VTIME = x.VTIME
const VWERASE = x.VWERASE
const WALL = x.WALL
const WCLONE = x.WCLONE
const WCONTINUED = x.WCONTINUED
const WEXITED = x.WEXITED
const WNOHANG = x.WNOHANG
const WNOTHREAD = x.WNOTHREAD
const WNOWAIT = x.WNOWAIT
const WORDSIZE = x.WORDSIZE
const WSTOPPED = x.WSTOPPED
const WUNTRACED = x.WUNTRACED

var Wait4 = x.Wait4

type WaitStatus = x.WaitStatus

var Write = x.Write

const XCASE = x.XCASE
