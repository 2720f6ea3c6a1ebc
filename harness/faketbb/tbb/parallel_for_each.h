#include "fake_tbb.h"
