#include "rootmodel.h"
