// The rdrand ENGINE is not available in the sandbox's OpenSSL. fbpcf only uses it to select the
// RAND implementation; RAND_bytes itself keeps coming from OpenSSL.
#include <openssl/engine.h>
extern "C" {
ENGINE* ENGINE_by_id(const char*) { static int x; return reinterpret_cast<ENGINE*>(&x); }
int ENGINE_init(ENGINE*) { return 1; }
int ENGINE_set_default(ENGINE*, unsigned int) { return 1; }
int ENGINE_finish(ENGINE*) { return 1; }
int ENGINE_free(ENGINE*) { return 1; }
}
