#include "ops.h"
