// Port forwarding is off in every check: these are never called.
#include <cstdlib>
#include <miniupnpc/include/miniupnpc.h>
#include <miniupnpc/include/upnpcommands.h>
extern "C" {
struct UPNPDev* upnpDiscover(int, const char*, const char*, int, int, unsigned char, int*) { abort(); }
int UPNP_GetValidIGD(struct UPNPDev*, struct UPNPUrls*, struct IGDdatas*, char*, int) { abort(); }
void freeUPNPDevlist(struct UPNPDev*) { abort(); }
void FreeUPNPUrls(struct UPNPUrls*) { abort(); }
int UPNP_AddPortMapping(const char*, const char*, const char*, const char*, const char*, const char*, const char*, const char*, const char*) { abort(); }
}
