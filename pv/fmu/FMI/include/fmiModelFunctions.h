/* stand-in: only asked for */
#include "fmiModelTypes.h"
