#include "vtlib.h"
