#include "s2_model.h"
