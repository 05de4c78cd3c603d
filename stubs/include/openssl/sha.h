#include "openssl/vfssl.h"
