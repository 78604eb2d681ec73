/* A second copy of the digest code of /repo, compiled without instrumentation, for digests of very long messages. */
#define kwiversysMD5_New native_MD5_New
#define kwiversysMD5_Delete native_MD5_Delete
#define kwiversysMD5_Initialize native_MD5_Initialize
#define kwiversysMD5_Append native_MD5_Append
#define kwiversysMD5_Finalize native_MD5_Finalize
#define kwiversysMD5_FinalizeHex native_MD5_FinalizeHex
#define kwiversysMD5_DigestToHex native_MD5_DigestToHex
#define KWSYS_NAMESPACE kwiversys
#include <vital/kwiversys/MD5.c>
