// The sandbox has no hardware random engine: let OpenSSL's default generator stand in for it.
#include <openssl/engine.h>
#define EXP extern "C" __attribute__((visibility("default")))
static char gEng;
EXP ENGINE* ENGINE_by_id(const char*) { return (ENGINE*)&gEng; }
EXP int ENGINE_init(ENGINE*) { return 1; }
EXP int ENGINE_set_default(ENGINE*, unsigned) { return 1; }
EXP int ENGINE_finish(ENGINE*) { return 1; }
EXP int ENGINE_free(ENGINE*) { return 1; }
