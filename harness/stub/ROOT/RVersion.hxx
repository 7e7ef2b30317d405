#include "../RVersion.h"
