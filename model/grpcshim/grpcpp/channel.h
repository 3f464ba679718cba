#include "grpcshim.h"
