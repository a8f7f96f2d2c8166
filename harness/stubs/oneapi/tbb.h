#include "../tbb/tbb.h"
