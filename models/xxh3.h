#include "xxhash.h"
