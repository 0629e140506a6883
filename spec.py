"""What each harness is built from and which harness decides which property."""
import glob, os
REPO = os.environ.get("VF_REPO", "/repo")
SRC = REPO + "/src"

def g(*pats, exclude=()):
    r = []
    for p in pats:
        r += [f for f in glob.glob(SRC + "/" + p) if os.path.basename(f) not in exclude]
    return sorted(r)

def lib(name):
    L = {
        "common": lambda: g("Common/*.cpp", exclude=("ConsoleHandler.cpp", "SignalHandler.cpp", "ConsoleTools.cpp", "CommandLine.cpp")),
        "console": lambda: g("Common/ConsoleTools.cpp", "Common/CommandLine.cpp"),
        "crypto": lambda: g("crypto/*.c", "crypto/*.cpp", "crypto/pow_hash/*.cpp", "crypto/pow_hash/*.c"),
        "core": lambda: g("CryptoNoteCore/*.cpp"),
        "explorer": lambda: g("BlockchainExplorer/*.cpp"),
        "logging": lambda: g("Logging/*.cpp"),
        "serialization": lambda: g("Serialization/*.cpp"),
        "system": lambda: g("System/*.cpp", "Platform/Linux/System/*.cpp"),
        "http": lambda: g("HTTP/*.cpp"),
        "jsonrpc": lambda: g("Rpc/JsonRpc.cpp", "Rpc/HttpClient.cpp", "Rpc/HttpServer.cpp"),
        "rpcserver": lambda: g("Rpc/RpcServer.cpp", "JsonRpcServer/*.cpp"),
        "transfers": lambda: g("Transfers/*.cpp"),
        "wallet": lambda: g("Wallet/WalletErrors.cpp", "Wallet/WalletUtils.cpp", "Wallet/WalletAsyncContextCounter.cpp"),
        "walletlegacy": lambda: g("WalletLegacy/*.cpp"),
        "mnemonics": lambda: g("Mnemonics/*.cpp"),
        "protocol": lambda: g("CryptoNoteProtocol/*.cpp"),
        "payment": lambda: g("PaymentGate/PaymentServiceJsonRpcMessages.cpp"),
        "p2p": lambda: g("P2p/LevinProtocol.cpp", "P2p/PeerListManager.cpp"),
        "netnode": lambda: g("P2p/NetNode.cpp", "P2p/NetNodeConfig.cpp"),
    }
    return L[name]()

CORELIBS = ["core", "common", "console", "crypto", "logging", "serialization", "explorer"]
WRAP_ENV = ["time", "generate_random_bytes", "_ZNSt13random_device9_M_getvalEv"]
HARNESS = {}
PROPS = {}
NA = {}

def harness(name, sources, libs, wrap=(), std="c++17", extra=()):
    HARNESS[name] = dict(sources=list(sources), libs=list(libs), wrap=list(wrap), std=std, extra=list(extra))

def prop(pid, hname, **kw):
    PROPS[pid] = dict(harness=hname, **kw)
