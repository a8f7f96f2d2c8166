#include "../../tbb/tbb.h"
