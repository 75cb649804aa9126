/* stand-in for the template of the FMU SDK (not part of the repository): what the generated code needs of it */
#include <stdlib.h>
#include <string.h>
#include "fmiModelTypes.h"
typedef struct { fmiBoolean iterationConverged; } fmiEventInfo;
typedef struct { double *r; double time; } ModelInstance;
#define r(vr) comp->r[vr]
static fmiBoolean newContinousStateSet = fmiTrue;
